SPECIFICATION DocSpec
CHECK_DEADLOCK FALSE
INVARIANTS Truthful Leads Listed
