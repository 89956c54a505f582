SPECIFICATION Spec
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
