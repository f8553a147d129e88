SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Stored InStep
PROPERTY Monotone
CHECK_DEADLOCK FALSE
