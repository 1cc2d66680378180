SPECIFICATION Spec
CONSTANTS KEYS = 2 MAXC = 5 HANDLERS = 1 PROTOS = 1 LEFT = 3 EMIT = FALSE JOINED = TRUE
OPS = {"listen", "acceptfail", "send", "close"}
VIEW View
ALIAS Short
INVARIANTS OnePerIdentity Limit TrueIdentity Dialed Ended Common AtMostOneOutcome NothingOwed Placed Agreed
CHECK_DEADLOCK FALSE
