SPECIFICATION Spec
CONSTANT Schema <- SchemaDef
INVARIANTS AllWellFormed RoundTrip SizeExact Injective Merges Splits Ignored Cut OneActive Shown
CHECK_DEADLOCK FALSE
