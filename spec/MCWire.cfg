SPECIFICATION Spec
CONSTANTS
  Free = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 126, 127, 128, 129, 191, 192, 223, 224, 239, 240, 254, 255}
  Alphabet = {0, 1, 127, 128, 255}
  MaxLen = 6
INVARIANTS ReadsBack ZigZagInverse Minimal Sane
CHECK_DEADLOCK FALSE
