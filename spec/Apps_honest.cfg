SPECIFICATION Spec
CONSTANTS
  KIND = "ping"
  PEERS = 2
  HONEST = TRUE
  STOPS = FALSE
  PLAIN = FALSE
  LEFT = 3
  LIMIT = 3
  EMIT = FALSE
INVARIANTS Ok OneAtATime Fair Repeats Secret Settled
CHECK_DEADLOCK FALSE
VIEW View
