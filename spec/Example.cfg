CONSTANT Cases <- FileCases
SPECIFICATION ExampleSpec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Good
