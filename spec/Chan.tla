-------------------------------- MODULE Chan --------------------------------
(***************************************************************************)
(* The two-priority queue between tasks, at the grain of its shared state:  *)
(* what one step of a sender or of the receiver does.  c is the queue:      *)
(*   buf    configured capacity        open   new messages are accepted     *)
(*   hi, lo messages in the queues     cnt    messages announced, not taken *)
(*   parked senders waiting for room, in order      pk  the same as a set   *)
(*   live   senders in existence                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh(buf, senders) == [buf |-> buf, open |-> TRUE, hi |-> <<>>, lo |-> <<>>, cnt |-> 0,
                        parked |-> <<>>, pk |-> {}, live |-> senders]

(* sender: announce, queue up for room if that is too much, put the message *)
Announce(c) == [c EXCEPT !.cnt = @ + 1]
Over(c) == c.cnt > c.buf
Park(c, s) == [c EXCEPT !.parked = Append(@, s), !.pk = IF c.open THEN @ \cup {s} ELSE @ \ {s}]
Put(c, m, p) == IF p = "hi" THEN [c EXCEPT !.hi = Append(@, m)] ELSE [c EXCEPT !.lo = Append(@, m)]

(* receiver: take a message, let one waiting sender go on, count it *)
TakeHi(c) == [c EXCEPT !.hi = Tail(@)]
TakeLo(c) == [c EXCEPT !.lo = Tail(@)]
Unpark(c) == IF c.parked = <<>> THEN c
             ELSE LET s == Head(c.parked) IN [c EXCEPT !.parked = Tail(@), !.pk = @ \ {s}]
Count(c) == [c EXCEPT !.cnt = @ - 1]

Close(c) == [c EXCEPT !.open = FALSE]
UnparkAll(c) == [c EXCEPT !.parked = <<>>, !.pk = {}]
Ended(c) == ~c.open /\ c.cnt = 0
Leave(c, s) == [c EXCEPT !.live = @ \ {s}]
=============================================================================
