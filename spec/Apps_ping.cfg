SPECIFICATION Spec
CONSTANTS
  KIND = "ping"
  PEERS = 1
  HONEST = FALSE
  STOPS = FALSE
  PLAIN = FALSE
  LEFT = 3
  LIMIT = 4
  EMIT = FALSE
INVARIANTS Ok OneAtATime Fair Repeats Secret Settled
CHECK_DEADLOCK FALSE
VIEW View
