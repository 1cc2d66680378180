SPECIFICATION Spec
CONSTANTS
  MAXLEN = 3
  MAXB = 4
  ALPHA = {0, 1, 2, 4, 6, 47, 54, 97, 128, 195, 132, 169}
INVARIANTS RoundTrip Cuts Exact Emit
VIEW View
CHECK_DEADLOCK FALSE
