SPECIFICATION Spec
CONSTANT Traces <- TracesDef
CHECK_DEADLOCK FALSE
