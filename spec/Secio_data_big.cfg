SPECIFICATION Spec
CONSTANTS WHO = 2  FORGE = FALSE  ALTER = TRUE  DATA = 3  GIVES = 11  EMIT = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Authentic NotSelf OnlyOne Agreed Completes Looks Faithful
