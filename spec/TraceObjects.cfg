CONSTANT Schema <- SchemaDef
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
