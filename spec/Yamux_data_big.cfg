SPECIFICATION Spec
CONSTANTS W = 2  AllIds = {1}  MAXW = 3  MAXSTREAMS = 4  USERSTEPS = 6  DEPTH = 0  LATE = 0
  OPS = {"open", "write", "read", "stopread"}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Integrity Conservation Accounting NoViolation EofComplete Limits Settled NoDeadlock
