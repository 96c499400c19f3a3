SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT K = 2
