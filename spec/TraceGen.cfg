SPECIFICATION Spec
CONSTANT Observed <- ObservedDef
CHECK_DEADLOCK FALSE
