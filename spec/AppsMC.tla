------------------------------- MODULE AppsMC -------------------------------
(* One node with an application protocol among peers that say anything from a *)
(* small vocabulary, over connections that may be cut.  What the node does is *)
(* what Apps requires; the guarantees of the properties are stated on what    *)
(* happened (past), without Can and Do.                                       *)
EXTENDS Apps, Json
CONSTANTS KIND,      \* the protocol
          PEERS,     \* how many
          HONEST,    \* peers only answer, and answer right
          STOPS,     \* the user wants misbehaving peers disconnected
          PLAIN,     \* nobody has an identity
          LEFT,      \* how often peers and network act
          LIMIT,     \* how far time goes, in steps of a second
          EMIT
VARIABLES w, now, left, past, prog
vars == <<w, now, left, past, prog>>
View == <<w, now, left, past>>

G == "/g"      \* addresses: one everybody may use, one only neighbours can, one that is none
P == "/p"
X == "/x"
Tab == <<[a |-> G, c |-> "global"], [a |-> P, c |-> "private"], [a |-> X, c |-> "none"]>>
Why == IF STOPS THEN <<"dup", "timeout", "invalid", "many", "dupget", "dupnodes", "items">> ELSE <<>>
Conf(n) == [real |-> n = 0, key |-> IF PLAIN THEN -1 ELSE n, timeout |-> 2000, global |-> TRUE, listens |-> <<G, P, X>>, id |-> "me", disc |-> Why,
            store |-> <<G>>, invalid |-> <<>>, cycle |-> 2000, lport |-> 1000, timers |-> <<>>]
Peers == 1..PEERS
Ends == {<<0, p>> : p \in Peers} \cup {<<p, 1>> : p \in Peers}
(* the first peer dials, the others are dialed *)
UpEv(k) == LET p == IF k[1] = 0 THEN k[2] ELSE k[1]
               a == IF k[1] = 0 /\ p = 1 THEN "/in/1" ELSE IF k[1] = 0 THEN "/out/" \o ToString(p) ELSE "/n0"
           IN [e |-> "up", n |-> k[1], s |-> k[2], c |-> p, out |-> (p = 1) = (k[1] # 0), addr |-> a, plain |-> a, pre |-> "/in/", post |-> "",
               key |-> IF PLAIN THEN -1 ELSE IF k[1] = 0 THEN p ELSE 0, t |-> now]
None == [s \in Peers |-> 0]
Init == /\ w = Fresh(KIND, [i \in 1..(PEERS + 1) |-> Conf(i - 1)], Tab) /\ now = 0 /\ left = LEFT /\ prog = <<>>
        /\ past = [pings |-> None, pongs |-> None, good |-> [s \in Peers |-> TRUE], dups |-> None, adds |-> None, gots |-> None,
                   last |-> [s \in Peers |-> ""], heard |-> [s \in Peers |-> {}], gets |-> None, cut |-> {}, wrong |-> {}]
Note(op) == prog' = IF EMIT THEN Append(prog, op) ELSE prog
Run == Note([op |-> "run"])

Up == \E k \in Ends : Can(w, UpEv(k)) /\ w' = Do(w, UpEv(k)) /\ UNCHANGED <<now, left>> /\ Run
       /\ UNCHANGED past
(* numbers on the wire are those of the round *)
Nonce(n, r) == ToString(100 * n + r)
RECURSIVE List(_)
List(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<<<x>>>> \o List(s \ {x})
Instance(tk) == IF ~Symbolic(tk) THEN tk ELSE IF tk.k = "ping" THEN [k |-> "ping", x |-> Nonce(tk.n, tk.no)]
                ELSE [k |-> "nodes", ann |-> tk.ann, items |-> List(tk.must)]
Own(p) == IF p = 1 THEN "/in/7" ELSE "/out/" \o ToString(p)
Heard(k, m) ==      \* what a node and its peers have told each other
  IF k[1] = 0 THEN
    LET p == k[2] IN
    CASE m.k = "pong" -> [past EXCEPT !.good = [@ EXCEPT ![p] = m.x = past.last[p] /\ past.pings[p] > past.pongs[p]]]
      [] m.k = "get" -> [past EXCEPT !.gets = [@ EXCEPT ![p] = @ + 1]]
      [] m.k = "ident" -> [past EXCEPT !.gots = [@ EXCEPT ![p] = @ + 1]]
      [] OTHER -> past
  ELSE LET p == k[1] IN
    CASE m.k = "ping" -> [past EXCEPT !.pings = [@ EXCEPT ![p] = @ + 1], !.last = [@ EXCEPT ![p] = m.x]]
      [] m.k = "nodes" /\ m.ann -> [past EXCEPT !.wrong = @ \cup {<<"told", a>> : a \in Range(Flat(m.items)) \cap (past.heard[p] \cup {Own(p)})},
                                               !.heard = [@ EXCEPT ![p] = @ \cup Range(Flat(m.items))]]
      [] m.k = "ident" -> [past EXCEPT !.wrong = @ \cup (Range(m.listens) \cap {P, X})]
      [] OTHER -> past
Deliver == \E k \in Ends : /\ k \in DOMAIN w.ses /\ w.ses[k].on /\ Q(w, Way(w, k, TRUE)) # <<>>
                           /\ LET m == Instance(Q(w, Way(w, k, TRUE))[1])
                                  e == [e |-> "got", n |-> k[1], s |-> k[2], m |-> m, t |-> now]
                              IN Can(w, e) /\ w' = Do(w, e) /\ past' = Heard(k, m)
                           /\ UNCHANGED <<now, left>> /\ Run
Report == \E cb \in (IF w.due = <<>> THEN {} ELSE w.due[1]) :
  /\ w' = Do(w, [e |-> "cb", cb |-> cb, t |-> now]) /\ UNCHANGED <<now, left, prog>>
  /\ LET p == IF "peer" \in DOMAIN cb THEN cb.peer ELSE cb.s IN
     past' = CASE cb.k = "pong" -> [past EXCEPT !.pongs = [@ EXCEPT ![p] = @ + 1], !.wrong = @ \cup (IF past.good[p] THEN {} ELSE {"pong"})]
               [] cb.k = "timeout" -> [past EXCEPT !.wrong = @ \cup (IF past.pings[p] + Cardinality({i \in DOMAIN Q(w, Way(w, <<0, p>>, FALSE)) : Q(w, Way(w, <<0, p>>, FALSE))[i].k = "ping"}) > past.pongs[p] THEN {} ELSE {"timeout"})]
               [] cb.k = "mis" /\ cb.why = "timeout" -> [past EXCEPT !.wrong = @ \cup (IF past.gots[p] > 0 THEN {"late"} ELSE {})]
               [] cb.k = "mis" /\ cb.why \in {"dup", "dupget"} -> [past EXCEPT !.dups = [@ EXCEPT ![p] = @ + 1]]
               [] cb.k = "listens" -> [past EXCEPT !.adds = [@ EXCEPT ![p] = @ + 1], !.wrong = @ \cup (Range(cb.as) \cap {P, X})]
               [] cb.k = "observed" -> [past EXCEPT !.wrong = @ \cup ({cb.a} \cap {P, X})]
               [] OTHER -> past
Words(p) ==
  CASE KIND = "ping" -> (IF HONEST THEN {} ELSE {[k |-> "ping", x |-> "7"], [k |-> "pong", x |-> "7"], [k |-> "raw"]})
                        \cup {[k |-> "pong", x |-> x] : x \in IF past.pings[p] > 0 THEN {past.last[p]} ELSE {}}
    [] KIND = "id" -> {[k |-> "ident", listens |-> l, observed |-> o, id |-> "you"] : l \in {<<G, P>>, [i \in 1..11 |-> G]}, o \in {G, X}} \cup {[k |-> "raw"]}
    [] OTHER -> {[k |-> "get", version |-> 0, count |-> 5, port |-> x] : x \in {-1, 7}} \cup
                {[k |-> "nodes", ann |-> b, items |-> i] : b \in BOOLEAN, i \in {<<>>, <<<<P, X>>>>, [j \in 1..11 |-> <<X>>]}} \cup {[k |-> "raw"]}
Say == \E p \in Peers : \E m \in Words(p) :
  /\ left > 0 /\ left' = left - 1
  /\ LET e == [e |-> "put", n |-> p, s |-> 1, m |-> m, t |-> now] IN
     /\ Can(w, e) /\ w' = Do(w, e) /\ Note([op |-> "put", n |-> p, s |-> 1, m |-> m])
     \* an honest peer answers each ping once
     /\ (HONEST => past.pings[p] > past.pongs[p] /\ \A i \in DOMAIN Q(w, Way(w, <<p, 1>>, FALSE)) : Q(w, Way(w, <<p, 1>>, FALSE))[i].k # "pong")
  /\ UNCHANGED <<now, past>>
Cut == \E c \in Peers \ w.dying : /\ past.cut = {} /\ left > 0 /\ left' = left - 1 /\ \E k \in DOMAIN w.ses : w.ses[k].c = c
                                  /\ w' = Do(w, [e |-> "cut", c |-> c, t |-> now]) /\ w.due = <<>>
                                  /\ past' = [past EXCEPT !.cut = @ \cup {c}] /\ UNCHANGED now /\ Note([op |-> "cut", c |-> c])
Down == \E k \in DOMAIN w.ses : /\ Can(w, [e |-> "down", n |-> k[1], s |-> k[2], t |-> now]) /\ w' = Do(w, [e |-> "down", n |-> k[1], s |-> k[2], t |-> now])
                                /\ UNCHANGED <<now, left, past>> /\ Run
Toks == IF KIND = "ping" THEN {0, 1} ELSE IF KIND = "id" THEN {100} ELSE {0}
Step == IF KIND = "id" THEN 4000 ELSE 1000
Tick == \E tok \in Toks : /\ now < LIMIT * Step /\ w.due = <<>> /\ DOMAIN w.ses # {}
                          /\ now' = now + Step /\ w' = Do(w, [e |-> "tick", n |-> 0, tok |-> tok, t |-> now'])
                          /\ UNCHANGED <<left, past>> /\ Note([op |-> "sleep", ms |-> Step])
Next == Up \/ Deliver \/ Report \/ Say \/ Cut \/ Down \/ Tick
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- guarantees
Ok == past.wrong = {}
(* nobody is asked again before the answer *)
OneAtATime == \A p \in Peers : past.pongs[p] <= past.pings[p] /\
  (KIND = "ping" /\ <<0, p>> \in DOMAIN w.ses => past.pings[p] + Cardinality({i \in DOMAIN Q(w, Way(w, <<0, p>>, FALSE)) : Q(w, Way(w, <<0, p>>, FALSE))[i].k = "ping"}) <= past.pongs[p] + 1)
(* who answers right is not disconnected *)
Fair == (HONEST /\ ~PLAIN) => w.dying \subseteq past.cut
(* who repeats itself is reported *)
Repeats == w.due = <<>> => \A p \in Peers : (KIND = "id" => past.adds[p] <= past.dups[p] + 1) /\ (KIND = "disc" => past.gets[p] <= past.dups[p] + 1)
(* without an identity there is no conversation *)
Secret == (PLAIN /\ KIND # "disc") => \A k \in DOMAIN w.ses : k[1] = 0 => w.ses[k].c \in w.dying
(* when nothing can move any more, nothing is owed *)
Settled == ~(ENABLED Up \/ ENABLED Deliver \/ ENABLED Report \/ ENABLED Down) => w.due = <<>> /\ Quiet([w EXCEPT !.cfg = <<>>], now)
Emit == (EMIT /\ (left = 0 \/ now >= LIMIT * Step) /\ ~(ENABLED Up \/ ENABLED Deliver \/ ENABLED Report \/ ENABLED Down)) => PrintT(<<"PROG", ToJson(prog)>>)
=============================================================================
