SPECIFICATION Spec
CONSTANTS WHO = 3  FORGE = FALSE  ALTER = FALSE  DATA = 0  GIVES = 7  EMIT = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Authentic NotSelf OnlyOne Agreed Completes Looks Faithful
