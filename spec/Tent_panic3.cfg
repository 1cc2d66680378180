SPECIFICATION Spec
CONSTANTS KEYS = 2 MAXC = 5 HANDLERS = 2 PROTOS = 1 LEFT = 3 EMIT = FALSE JOINED = TRUE
OPS = {"panic", "send", "disconnect"}
VIEW View
ALIAS Short
INVARIANTS OnePerIdentity Limit TrueIdentity Dialed Ended Common AtMostOneOutcome NothingOwed Agreed
CHECK_DEADLOCK FALSE
