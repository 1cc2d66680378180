----------------------------- MODULE YamuxCodec -----------------------------
(* The frames in a byte string: a function of the bytes alone.  Each line of *)
(* the file is a byte string, how it was cut, the frames the implementation  *)
(* recognised and the bytes it produced when it encoded them again.          *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACES)

NONE == [t |-> "none"]
Bad == [t |-> "bad", s |-> <<0, 0, 0, 0>>, fl |-> 0, n |-> <<0, 0, 0, 0>>, d |-> <<>>]
Type == <<"data", "wu", "ping", "ga">>
Num(b) == IF b[1] > 0 THEN 16777216 ELSE b[2] * 65536 + b[3] * 256 + b[4]

(* the frame that starts at position p, NONE if it is not complete *)
FrameAt(b, p, w) ==
  IF Len(b) - p + 1 < 12 THEN NONE
  ELSE LET ty == b[p + 1]
           n == SubSeq(b, p + 8, p + 11)
           len == Num(n) IN
       IF b[p] # 0 \/ ty > 3 \/ (ty = 0 /\ len > w) THEN Bad
       ELSE LET body == IF ty = 0 THEN len ELSE 0 IN
            IF Len(b) - p - 11 < body THEN NONE
            ELSE [t |-> Type[ty + 1], s |-> SubSeq(b, p + 4, p + 7), fl |-> b[p + 2] * 256 + b[p + 3],
                  n |-> n, d |-> SubSeq(b, p + 12, p + 11 + body)]

RECURSIVE Parse(_, _, _)
Parse(b, p, w) == LET f == FrameAt(b, p, w) IN
                  IF f = NONE THEN <<>>
                  ELSE IF f = Bad THEN <<Bad>>
                  ELSE <<f>> \o Parse(b, p + 12 + Len(f.d), w)
RECURSIVE Size(_)
Size(fs) == IF fs = <<>> \/ Head(fs) = Bad THEN 0 ELSE 12 + Len(Head(fs).d) + Size(Tail(fs))

Right(c) == LET fs == Parse(c.bytes, 1, c.w) IN
            /\ c.out = fs
            /\ c.re = SubSeq(c.bytes, 1, Size(fs))

VARIABLES t
Init == t \in 1..Len(Cases) /\ Right(Cases[t]) /\ PrintT(<<"ACCEPTED", t>>)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
=============================================================================
