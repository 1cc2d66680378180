SPECIFICATION Spec
CONSTANTS WHO = 2  FORGE = FALSE  ALTER = FALSE  DATA = 2  GIVES = 10  EMIT = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Authentic NotSelf OnlyOne Agreed Completes Looks Faithful
