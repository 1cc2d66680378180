SPECIFICATION Spec
CONSTANTS W = 2  AllIds = {1}  MAXW = 2  MAXSTREAMS = 4  USERSTEPS = 5  DEPTH = 0  LATE = 0
  OPS = {"open", "write", "read", "shut", "drop"}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Integrity Conservation Accounting NoViolation EofComplete Limits Settled NoDeadlock
