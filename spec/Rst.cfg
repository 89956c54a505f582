CONSTANT Cases <- FileCases
SPECIFICATION RstSpec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Exported
