SPECIFICATION Spec
CONSTANT Programs <- ProgramsDef
CHECK_DEADLOCK FALSE
