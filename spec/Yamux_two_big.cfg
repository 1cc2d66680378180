SPECIFICATION Spec
CONSTANTS W = 1  AllIds = {1, 2}  MAXW = 2  MAXSTREAMS = 4  USERSTEPS = 6  DEPTH = 0  LATE = 0
  OPS = {"open", "write", "read", "drop"}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Integrity Conservation Accounting NoViolation EofComplete Limits Settled NoDeadlock
