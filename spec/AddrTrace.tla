------------------------------ MODULE AddrTrace ------------------------------
(* Recorded calls on addresses and peer identities.  cs: the component list   *)
(* the address stands for; ids: peer identities seen, with their keys.        *)
EXTENDS Addr, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, cs, ids
vars == <<t, i, cs, ids>>

(* everything that can be read off an address *)
Shows(L, ev, x) ==
  /\ ev.comps = x /\ ev.bytes = Encode(x) /\ ev.len = Len(ev.bytes) /\ ev.empty = (x = <<>>)
  /\ ev.text = Text(L, x)
  /\ ev.rebytes /\ ev.reiter /\ (Plain(x) => ev.retext /\ ev.reserde)

(* the list after the event, {} if it is not allowed *)
After(L, ev) ==
  CASE ev.e = "new" -> IF Shows(L, ev, ev.cs) THEN {ev.cs} ELSE {}
    [] ev.e = "push" -> LET x == Append(cs, ev.c) IN IF Shows(L, ev, x) THEN {x} ELSE {}
    [] ev.e = "pop" ->
         LET n == Len(cs) IN
         IF n = 0 THEN IF ev.got = <<>> /\ Shows(L, ev, cs) THEN {cs} ELSE {}
         ELSE IF ev.got = <<cs[n]>> /\ Shows(L, ev, Take(cs, n - 1)) THEN {Take(cs, n - 1)} ELSE {}
    [] ev.e = "replace" ->      \* at counts from 0; c is empty if the caller declines
         IF ev.at >= Len(cs) \/ ev.c = <<>> THEN IF ~ev.some /\ Shows(L, ev, cs) THEN {cs} ELSE {}
         ELSE LET x == [cs EXCEPT ![ev.at + 1] = ev.c[1]] IN
              IF ev.some /\ Shows(L, ev, x) THEN {x} ELSE {}
    [] ev.e = "bytes" ->
         LET d == Decode(ev.b) IN
         IF ev.ok = d.ok /\ (ev.ok => ev.comps = d.cs /\ ev.bytes = ev.b) THEN {cs} ELSE {}
    [] ev.e = "text" ->
         LET d == ParseText(L, ev.b) IN
         IF ev.ok = d.ok /\ (ev.ok => ev.comps = d.cs /\ ev.bytes = Encode(d.cs)) THEN {cs} ELSE {}
    [] ev.e = "pid" ->          \* a peer identity from bytes
         IF ev.ok = ValidId(ev.b) /\ (ev.ok => ev.out = ev.b /\ ev.digest = Skip(ev.b, 2) /\ ev.retext) THEN {cs} ELSE {}
    [] ev.e = "pidtext" ->
         LET d == Look(L, "p2p", ev.b) IN
         IF ev.ok = d.ok /\ (ev.ok => ev.out = d.v /\ ev.text = ev.b) THEN {cs} ELSE {}
    [] ev.e = "key" ->          \* h: the hash of the key
         IF /\ ev.id = <<18, 32>> \o ev.h
            /\ ev.got = ev.key /\ ev.again = ev.id /\ ev.match
            /\ \A k \in 1..Len(ev.others) : ev.others[k] = (k = ev.self)
            /\ \A r \in ids : (r.id = ev.id) <=> (r.key = ev.key)
         THEN {cs} ELSE {}
    [] ev.e = "sock" ->         \* socket address to address and back
         IF /\ ev.comps = <<[p |-> IF Len(ev.ip) = 4 THEN "ip4" ELSE "ip6", v |-> ev.ip], [p |-> "tcp", v |-> ev.port]>>
            /\ ev.ok /\ ev.ip2 = ev.ip /\ ev.port2 = ev.port
         THEN {cs} ELSE {}
    [] ev.e = "tosock" ->
         LET s == Socket(ev.cs) IN
         IF \/ ev.ok = s.ok /\ (ev.ok => ev.ip = s.ip /\ ev.port = s.port)
            \/ Doubled(ev.cs, {"ip4", "ip6"}) /\ (ev.ok => \E k \in Pairs(ev.cs, {"ip4", "ip6"}) : ev.ip = ev.cs[k].v /\ ev.port = ev.cs[k + 1].v)
         THEN {cs} ELSE {}
    [] ev.e = "topeer" ->
         LET s == PeerOf(ev.cs) IN
         IF ev.ok = s.ok /\ (ev.ok => ev.id = s.v) THEN {cs} ELSE {}
    [] ev.e = "reach" -> IF ev.r = Reachable(ev.ip) THEN {cs} ELSE {}
    [] ev.e = "dns" ->          \* a resolver for names that are numeric addresses
         LET S == Pairs(ev.cs, {"dns4", "dns6"})
             p == PeerOf(ev.cs)
             M == {k \in 1..Len(ev.cs) : ev.cs[k].p \in {"ws", "wss", "tls"}} IN
         IF Doubled(ev.cs, {"dns4", "dns6"}) THEN {cs}
         ELSE IF S = {} THEN IF ~ev.some THEN {cs} ELSE {}
         ELSE LET q == Quad(ev.cs[First(S)].v) IN
              IF /\ ev.some
                 /\ ev.ok = q.ok
                 /\ q.ok => ev.comps = <<[p |-> "ip4", v |-> q.v], ev.cs[First(S) + 1]>>
                                       \o (IF M # {} /\ ev.cs[First(M)].p # "tls" THEN <<[p |-> ev.cs[First(M)].p, v |-> <<>>]>> ELSE <<>>)
                                       \o (IF p.ok THEN <<[p |-> "p2p", v |-> p.v]>> ELSE <<>>)
              THEN {cs} ELSE {}
    [] OTHER -> {}              \* panic: never allowed

Init == t \in 1..Len(Traces) /\ i = 1 /\ cs = <<>> /\ ids = {}
Next == /\ i <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[i] IN
           /\ cs' \in After(Traces[t].leaf, ev)
           /\ ids' = IF ev.e = "key" THEN ids \cup {[id |-> ev.id, key |-> ev.key]} ELSE ids
        /\ i' = i + 1 /\ UNCHANGED t
        /\ (i' > Len(Traces[t].ev) => PrintT(<<"ACCEPTED", t>>))
Spec == Init /\ [][Next]_vars
=============================================================================
