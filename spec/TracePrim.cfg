SPECIFICATION Spec
CONSTANT Events <- EventsDef
CHECK_DEADLOCK FALSE
