SPECIFICATION Spec
CHECK_DEADLOCK FALSE

