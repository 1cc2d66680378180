SPECIFICATION Spec
CONSTANTS KEYS = 3 MAXC = 1 HANDLERS = 1 PROTOS = 1 LEFT = 2 EMIT = FALSE JOINED = TRUE
OPS = {"dial", "disconnect"}
VIEW View
ALIAS Short
INVARIANTS OnePerIdentity Limit TrueIdentity Dialed Ended Common AtMostOneOutcome NothingOwed Agreed
CHECK_DEADLOCK FALSE
