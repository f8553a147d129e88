SPECIFICATION Spec
CONSTANT Schema <- SchemaDef
INVARIANTS Printed Stable Canonical Within
CHECK_DEADLOCK FALSE
