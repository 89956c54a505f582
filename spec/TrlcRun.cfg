CONSTANT Cases <- FileCases
SPECIFICATION RunSpec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Properties
