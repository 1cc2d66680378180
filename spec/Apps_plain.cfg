SPECIFICATION Spec
CONSTANTS
  KIND = "id"
  PEERS = 2
  HONEST = FALSE
  STOPS = FALSE
  PLAIN = TRUE
  LEFT = 2
  LIMIT = 2
  EMIT = FALSE
INVARIANTS Ok OneAtATime Fair Repeats Secret Settled
CHECK_DEADLOCK FALSE
VIEW View
