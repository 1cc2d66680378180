SPECIFICATION Spec
CONSTANTS KEYS = 2 MAXC = 5 HANDLERS = 1 PROTOS = 1 LEFT = 4 EMIT = FALSE JOINED = TRUE
OPS = {"listen", "acceptfail", "send", "close", "disconnect", "dial"}
VIEW View
ALIAS Short
INVARIANTS OnePerIdentity Limit TrueIdentity Dialed Ended Common AtMostOneOutcome NothingOwed Placed Agreed
CHECK_DEADLOCK FALSE
