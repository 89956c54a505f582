CONSTANT Cases <- FileCases
SPECIFICATION VerifySpec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Properties
