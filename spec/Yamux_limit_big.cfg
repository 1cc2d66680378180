SPECIFICATION Spec
CONSTANTS W = 1  AllIds = {1, 3, 5}  MAXW = 1  MAXSTREAMS = 1  USERSTEPS = 6  DEPTH = 0  LATE = 0
  OPS = {"open", "write", "read", "shut", "drop"}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Integrity Conservation Accounting NoViolation EofComplete Limits Settled NoDeadlock
