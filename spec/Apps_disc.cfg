SPECIFICATION Spec
CONSTANTS
  KIND = "disc"
  PEERS = 2
  HONEST = FALSE
  STOPS = TRUE
  PLAIN = FALSE
  LEFT = 2
  LIMIT = 3
  EMIT = FALSE
INVARIANTS Ok OneAtATime Fair Repeats Secret Settled
CHECK_DEADLOCK FALSE
VIEW View
