SPECIFICATION Spec
CONSTANTS
  SENDERS = {s1, s2}
  MSGS = 2
  BUF = 1
  CLOSER = TRUE
INVARIANTS Capacity Ordered AtEnd
PROPERTY Finishes
