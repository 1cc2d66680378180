SPECIFICATION Spec
CONSTANTS
  KIND = "disc"
  PEERS = 2
  HONEST = FALSE
  STOPS = FALSE
  PLAIN = FALSE
  LEFT = 3
  LIMIT = 4
  EMIT = FALSE
INVARIANTS Ok OneAtATime Fair Repeats Secret Settled
CHECK_DEADLOCK FALSE
VIEW View
