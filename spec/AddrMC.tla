------------------------------- MODULE AddrMC -------------------------------
(* An address under construction: all component lists up to MAXLEN over a    *)
(* universe of components, and all byte strings up to MAXB over an alphabet. *)
EXTENDS Addr, TLC, Json
CONSTANTS MAXLEN, MAXB, ALPHA
VARIABLES cs, b, last
vars == <<cs, b, last>>

Id1 == <<18, 32>> \o [k \in 1..32 |-> k]
L == << [k |-> "p2p", v |-> Id1, t |-> <<81, 109, 65>>, c |-> TRUE],
        [k |-> "ip6", v |-> Zero(15) \o <<1>>, t |-> <<58, 58, 49>>, c |-> TRUE] >>
U == { [p |-> "ip4", v |-> <<127, 0, 0, 1>>], [p |-> "ip4", v |-> <<255, 10, 0, 200>>],
       [p |-> "ip6", v |-> Zero(15) \o <<1>>],
       [p |-> "tcp", v |-> <<0, 0>>], [p |-> "tcp", v |-> <<255, 255>>], [p |-> "tcp", v |-> <<1, 0>>],
       [p |-> "dns4", v |-> <<>>], [p |-> "dns4", v |-> <<97, 46, 98>>], [p |-> "dns6", v |-> <<119, 115>>],
       [p |-> "tls", v |-> <<195, 169>>], [p |-> "tls", v |-> <<47, 119, 115>>], [p |-> "p2p", v |-> Id1], [p |-> "ws", v |-> <<>>], [p |-> "wss", v |-> <<>>] }

Init == cs = <<>> /\ b = <<>> /\ last = <<>>
Push == /\ b = <<>> /\ Len(cs) < MAXLEN
        /\ \E c \in U : cs' = Append(cs, c) /\ last' = <<"push", c>>
        /\ UNCHANGED b
Pop == /\ cs # <<>> /\ cs' = Take(cs, Len(cs) - 1) /\ last' = <<"pop">> /\ UNCHANGED b
Replace == /\ cs # <<>>
           /\ \E k \in 1..Len(cs), c \in U : cs' = [cs EXCEPT ![k] = c] /\ last' = <<"replace", k, c>>
           /\ UNCHANGED b
Byte == /\ cs = <<>> /\ Len(b) < MAXB
        /\ \E x \in ALPHA : b' = Append(b, x)
        /\ UNCHANGED <<cs, last>>
Next == Push \/ Pop \/ Replace \/ Byte
Spec == Init /\ [][Next]_vars
View == <<cs, b>>

(* the listed properties, on the specification itself *)
RoundTrip == /\ Decode(Encode(cs)) = [ok |-> TRUE, cs |-> cs]
             /\ Plain(cs) => ParseText(L, Text(L, cs)) = [ok |-> TRUE, cs |-> cs]
(* cutting an encoding anywhere but between components makes it invalid *)
Cuts == LET e == Encode(cs)
            ends == {Len(Encode(Take(cs, k))) : k \in 0..Len(cs)} IN
        \A n \in 0..Len(e) : Decode(Take(e, n)).ok <=> n \in ends
(* what is accepted is the encoding of what is read *)
Exact == LET d == Decode(b) IN d.ok => Encode(d.cs) = b
Emit == IF b = <<>> THEN PrintT(<<"PROG", ToJson(cs)>>) ELSE TRUE
=============================================================================
