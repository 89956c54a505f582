CONSTANT Cases <- FileCases
SPECIFICATION ApiSpec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Good
