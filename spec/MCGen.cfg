SPECIFICATION Spec
CONSTANTS
  N = 3
  Enums = TRUE
  PrintOn = TRUE
  Part = 0
  Parts = 1
INVARIANTS Refused Writable Printed
CHECK_DEADLOCK FALSE
