SPECIFICATION Spec
CONSTANTS WHO = 2  FORGE = TRUE  ALTER = TRUE  DATA = 0  GIVES = 9  EMIT = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Authentic NotSelf OnlyOne Agreed Completes Looks Faithful
