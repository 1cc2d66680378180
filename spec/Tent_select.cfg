SPECIFICATION Spec
CONSTANTS KEYS = 2 MAXC = 5 HANDLERS = 3 PROTOS = 2 LEFT = 2 EMIT = FALSE JOINED = TRUE
OPS = {"openp", "closep", "send"}
VIEW View
ALIAS Short
INVARIANTS OnePerIdentity Limit TrueIdentity Dialed Ended Common AtMostOneOutcome NothingOwed Agreed
CHECK_DEADLOCK FALSE
