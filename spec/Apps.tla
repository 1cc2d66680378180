-------------------------------- MODULE Apps --------------------------------
(* The application protocols that come with the library: ping, identify and   *)
(* discovery.  A run has nodes with one of them and nodes whose peers say     *)
(* whatever they like.  What a handler is told (a session opens or ends, a    *)
(* message comes, a timer ticks) decides what it reports to its user, what it *)
(* sends and whom it disconnects.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))

(* ses     sessions <<node, session>> on which the protocol has been opened    *)
(* q       what is under way, for each connection and side that sent it       *)
(* dying   connections that have to end                                       *)
(* due     reports that have to come next; those of a group in any order      *)
(* nonce   numbers of the pings seen, by node and round; at: when it was      *)
(* store   addresses the users of discovery have been given                   *)
(* tick    when timers last went off                                          *)
Fresh(k, ns, tab) ==
  [kind |-> k, cfg |-> [n \in 0..(Len(ns) - 1) |-> ns[n + 1]], tab |-> [a \in {tab[i].a : i \in DOMAIN tab} |-> (CHOOSE i \in DOMAIN tab : tab[i].a = a)],
   cls |-> tab, ses |-> <<>>, q |-> <<>>, dying |-> {}, due |-> <<>>, nonce |-> <<>>, at |-> <<>>, round |-> [n \in 0..(Len(ns) - 1) |-> 0],
   store |-> [n \in 0..(Len(ns) - 1) |-> Range(ns[n + 1].store)], tick |-> <<>>]

Real(w, n) == w.cfg[n].real
On(w, n) == {k \in DOMAIN w.ses : k[1] = n /\ w.ses[k].on}
Key(e) == <<e.n, e.s>>
Way(w, k, back) == LET s == w.ses[k] IN <<s.c, IF s.out = back THEN 1 ELSE 0>>      \* side 0 dialed
Q(w, x) == IF x \in DOMAIN w.q THEN w.q[x] ELSE <<>>
Send(w, k, m) == [w EXCEPT !.q = (Way(w, k, FALSE) :> Append(Q(w, Way(w, k, FALSE)), m)) @@ @]
RECURSIVE SendAll(_, _, _)
SendAll(w, ks, m) == IF ks = {} THEN w ELSE LET k == CHOOSE x \in ks : TRUE IN SendAll(Send(w, k, m), ks \ {k}, m)
Kill(w, ks) == [w EXCEPT !.dying = @ \cup {w.ses[k].c : k \in ks}]
Owe(w, groups) == [w EXCEPT !.due = @ \o SelectSeq(groups, LAMBDA g : g # {})]
Set(w, k, st) == [w EXCEPT !.ses = [@ EXCEPT ![k].st = st]]
St(w, k) == w.ses[k].st
Stops(w, n, why) == why \in Range(w.cfg[n].disc)
Mis(w, k, why, x) == IF w.kind = "id" THEN [k |-> "mis", n |-> k[1], peer |-> w.ses[k].key, why |-> why, x |-> x]
                     ELSE [k |-> "mis", n |-> k[1], s |-> k[2], why |-> why, x |-> x]
KillIf(w, k, why) == IF Stops(w, k[1], why) THEN Kill(w, {k}) ELSE w

\* ------------------------------------------------------------------- ping
PingUp(w, k, e) == LET v == Set(w, k, [busy |-> FALSE, since |-> 0, no |-> 0]) IN IF e.key = -1 THEN Kill(v, {k}) ELSE v
Asks(w, n) == {k \in On(w, n) : w.ses[k].key # -1 /\ ~St(w, k).busy}
(* every peer that owes no answer is asked *)
PingRound(w, e) ==
  LET n == e.n  r == w.round[n] + 1  ks == Asks(w, n)
      v == [w EXCEPT !.round = [@ EXCEPT ![n] = r], !.at = (<<n, r>> :> e.t) @@ @,
                     !.ses = [k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.st = [busy |-> TRUE, since |-> e.t, no |-> r]] ELSE @[k]]]
  IN SendAll(v, ks, [k |-> "ping", n |-> n, no |-> r])
(* those that owe one for too long are reported *)
PingLate(w, e) == {k \in On(w, e.n) : St(w, k).busy /\ e.t - St(w, k).since >= w.cfg[e.n].timeout}
PingTick(w, e) == IF e.tok = 0 THEN PingRound(w, e)
                  ELSE Owe(w, <<{[k |-> "timeout", n |-> k[1], s |-> k[2]] : k \in PingLate(w, e)}>>)
Fits(w, k, x) == St(w, k).busy /\ <<k[1], St(w, k).no>> \in DOMAIN w.nonce /\ w.nonce[<<k[1], St(w, k).no>>] = x
PingGot(w, k, e) ==
  CASE e.m.k = "ping" -> Owe(Send(w, k, [k |-> "pong", x |-> e.m.x]), <<{[k |-> "ping", n |-> k[1], s |-> k[2]]}>>)
    [] e.m.k = "pong" -> IF Fits(w, k, e.m.x) THEN Owe(Set(w, k, [St(w, k) EXCEPT !.busy = FALSE]), <<{[k |-> "pong", n |-> k[1], s |-> k[2], d |-> e.t - St(w, k).since]}>>)
                         ELSE Kill(w, {k})
    [] OTHER -> Owe(w, <<{[k |-> "bad", n |-> k[1], s |-> k[2]]}>>)

\* ------------------------------------------------------------------- identify
ATMOST == 10
PATIENCE == 8000
Class(w, a) == IF a \in DOMAIN w.tab THEN w.cls[w.tab[a]].c ELSE "private"
Passes(w, n, a) == Class(w, a) = "global" \/ (Class(w, a) = "private" /\ ~w.cfg[n].global)
Passed(w, n, as) == SelectSeq(as, LAMBDA a : Passes(w, n, a))
IdUp(w, k, e) ==
  IF e.key = -1 THEN Kill(Set(w, k, [since |-> 0, got |-> FALSE]), {k})
  ELSE LET l == Passed(w, k[1], w.cfg[k[1]].listens)
       IN Send(Set(w, k, [since |-> e.t, got |-> FALSE]), k, [k |-> "ident", listens |-> SubSeq(l, 1, Min(Len(l), ATMOST)), observed |-> e.plain, id |-> w.cfg[k[1]].id])
IdLate(w, e) == {k \in On(w, e.n) : w.ses[k].key # -1 /\ ~St(w, k).got /\ e.t - St(w, k).since >= PATIENCE}
IdTick(w, e) == LET v == Owe(w, <<{Mis(w, k, "timeout", 0) : k \in IdLate(w, e)}>>)
                IN IF Stops(w, e.n, "timeout") THEN Kill(v, IdLate(w, e)) ELSE v
(* reports in order; nothing follows one to which the user said: disconnect *)
RECURSIVE Until(_, _, _)
Until(w, k, steps) == IF steps = <<>> THEN w
                      ELSE LET v == Owe(w, <<{steps[1].cb}>>) IN IF Stops(w, k[1], steps[1].why) THEN Kill(v, {k}) ELSE Until(v, k, Tail(steps))
IdGot(w, k, e) ==
  IF w.ses[k].key = -1 THEN w
  ELSE IF e.m.k = "raw" THEN Until(w, k, <<[why |-> "invalid", cb |-> Mis(w, k, "invalid", 0)]>>)
  ELSE LET p == w.ses[k].key  n == k[1]
           one == IF St(w, k).got THEN <<[why |-> "dup", cb |-> Mis(w, k, "dup", 0)]>> ELSE <<>>
           two == <<[why |-> "ident", cb |-> [k |-> "ident", n |-> n, s |-> k[2], id |-> e.m.id]]>>
           three == IF Len(e.m.listens) > ATMOST THEN <<[why |-> "many", cb |-> Mis(w, k, "many", Len(e.m.listens))]>>
                    ELSE <<[why |-> "", cb |-> [k |-> "listens", n |-> n, peer |-> p, as |-> Passed(w, n, e.m.listens)]]>>
           four == IF Passes(w, n, e.m.observed) THEN <<[why |-> "observed", cb |-> [k |-> "observed", n |-> n, peer |-> p, a |-> e.m.observed, out |-> w.ses[k].out]]>> ELSE <<>>
       IN Until(Set(w, k, [St(w, k) EXCEPT !.got = TRUE]), k, one \o two \o three \o four)

\* ------------------------------------------------------------------- discovery
FEW == 10
MANY == 1000
PEREACH == 3
(* known: addresses the peer has been told or told us; perhaps: those it may  *)
(* have been told; pend, maybe: what will, or may, be told it next            *)
DiscUp(w, k, e) ==
  LET st == [listen |-> e.out, a |-> e.addr, pre |-> e.pre, post |-> e.post, last |-> -1, asked |-> FALSE, told |-> FALSE,
             known |-> IF e.out THEN {e.addr} ELSE {}, perhaps |-> {}, pend |-> {}, maybe |-> {}]
      v == Set(w, k, st)
  IN IF e.out THEN Send(v, k, [k |-> "get", version |-> 0, count |-> MANY, port |-> w.cfg[k[1]].lport]) ELSE v
Ready(w, k, t) == St(w, k).last = -1 \/ t - St(w, k).last > w.cfg[k[1]].cycle
Hot(w, n, t) == {St(w, k).a : k \in {x \in On(w, n) : Ready(w, x, t) /\ St(w, x).listen}} \ Range(w.cfg[n].invalid)
RECURSIVE Announce(_, _)
Announce(w, ks) == IF ks = {} THEN w
                   ELSE LET k == CHOOSE x \in ks : TRUE
                            st == St(w, k)
                            v == IF st.pend \cup st.maybe = {} THEN w
                                 ELSE Send(w, k, [k |-> "nodes", ann |-> TRUE, must |-> st.pend, may |-> st.maybe, size |-> -1])
                        IN Announce(v, ks \ {k})
DiscTick(w, e) ==
  LET ks == On(w, e.n)
      hot == Hot(w, e.n, e.t)
      v == Announce(w, ks)
      new(st) == hot \ (st.known \cup st.perhaps)
      unsure(st) == (hot \cap st.perhaps) \ st.known
      all == Cardinality(ks) <= 3
      next(k, st) == LET l == IF Ready(w, k, e.t) THEN e.t ELSE st.last
                     IN IF all THEN [st EXCEPT !.last = l, !.pend = new(st), !.maybe = unsure(st), !.known = @ \cup hot, !.perhaps = @ \ hot]
                        ELSE [st EXCEPT !.last = l, !.pend = {}, !.maybe = new(st) \cup unsure(st), !.perhaps = @ \cup (hot \ st.known)]
  IN [v EXCEPT !.ses = [k \in DOMAIN @ |-> IF k \in ks THEN [@[k] EXCEPT !.st = next(k, @)] ELSE @[k]]]
Keep(w, n, as) == [w EXCEPT !.store = [@ EXCEPT ![n] = @ \cup as]]
DiscGet(w, k, e) ==
  LET n == k[1]
      st == St(w, k)
      dup == st.asked
      w1 == IF dup THEN Owe(KillIf(w, k, "dupget"), <<{Mis(w, k, "dupget", 0)}>>) ELSE w
      held == w.store[n]
      a == IF st.listen THEN st.a ELSE st.pre \o ToString(e.m.port) \o st.post
      tells == e.m.port # -1
      size == Min(Cardinality(held), Max(MANY, e.m.count))
      st1 == [st EXCEPT !.asked = TRUE, !.listen = @ \/ tells, !.a = IF tells THEN a ELSE @,
                        !.known = @ \cup (IF tells THEN {a} ELSE {}) \cup (IF size = Cardinality(held) THEN held ELSE {}),
                        !.perhaps = @ \cup (IF size = Cardinality(held) THEN {} ELSE held)]
      w2 == IF tells THEN Keep(Owe(w1, <<{[k |-> "add", n |-> n, s |-> k[2], as |-> <<a>>]}>>), n, {a}) ELSE w1
  IN IF dup /\ Stops(w, n, "dupget") THEN w1
     ELSE Send(Set(w2, k, st1), k, [k |-> "nodes", ann |-> FALSE, must |-> IF size = Cardinality(held) THEN held ELSE {}, may |-> held, size |-> size])
Wrong(m) == IF Len(m.items) > (IF m.ann THEN FEW ELSE MANY) THEN [why |-> "items", x |-> Len(m.items)]
            ELSE LET bad == {i \in DOMAIN m.items : Len(m.items[i]) > PEREACH}
                 IN IF bad = {} THEN [why |-> "", x |-> 0] ELSE [why |-> "many", x |-> Len(m.items[CHOOSE i \in bad : \A j \in bad : i <= j])]
DiscNodes(w, k, e) ==
  LET n == k[1]
      st == St(w, k)
      x == Wrong(e.m)
      again == ~e.m.ann /\ st.told
      as == Flat(e.m.items)
      w1 == IF x.why = "" THEN w ELSE Owe(KillIf(w, k, x.why), <<{Mis(w, k, x.why, x.x)}>>)
      w2 == IF again THEN Owe(KillIf(w1, k, "dupnodes"), <<{Mis(w, k, "dupnodes", 0)}>>)
            ELSE Keep(Owe(Set(w1, k, [st EXCEPT !.known = @ \cup Range(as), !.told = @ \/ ~e.m.ann]),
                          <<{[k |-> "adds", n |-> n, s |-> k[2], as |-> as]}>>), n, Range(as))
  IN IF x.why # "" /\ Stops(w, n, x.why) THEN w1 ELSE w2
DiscGot(w, k, e) ==
  CASE e.m.k = "get" -> DiscGet(w, k, e)
    [] e.m.k = "nodes" -> DiscNodes(w, k, e)
    [] OTHER -> Owe(KillIf(w, k, "invalid"), <<{Mis(w, k, "invalid", 0)}>>)

\* ------------------------------------------------------------------- messages
(* a message sent by a handler is known up to what the handler may choose *)
Symbolic(tk) == (tk.k = "ping" /\ "no" \in DOMAIN tk) \/ (tk.k = "nodes" /\ "must" \in DOMAIN tk)
Optional(tk) == tk.k = "nodes" /\ Symbolic(tk) /\ tk.ann /\ tk.must = {}
(* rounds a second or more apart have different numbers *)
NonceOk(w, tk, x) == IF <<tk.n, tk.no>> \in DOMAIN w.nonce THEN w.nonce[<<tk.n, tk.no>>] = x
                     ELSE \A r \in DOMAIN w.nonce : (r[1] = tk.n /\ w.at[<<tk.n, tk.no>>] - w.at[r] >= 1000) => w.nonce[r] # x
NodesOk(tk, m) ==
  LET as == Flat(m.items)
      s == Range(as)
  IN /\ m.ann = tk.ann /\ \A i \in DOMAIN m.items : Len(m.items[i]) = 1
     /\ Cardinality(s) = Len(as) /\ tk.must \subseteq s /\ s \subseteq tk.must \cup tk.may
     /\ IF tk.ann THEN Len(as) <= FEW /\ as # <<>> ELSE Len(as) = tk.size
Matches(w, tk, m) == IF ~Symbolic(tk) THEN tk = m
                     ELSE IF tk.k # m.k THEN FALSE
                     ELSE IF tk.k = "ping" THEN NonceOk(w, tk, m.x) ELSE NodesOk(tk, m)
RECURSIVE After(_, _, _)
(* what remains when m has come, or <<"no">> *)
After(w, q, m) == IF q = <<>> THEN <<"no">>
                  ELSE IF Matches(w, q[1], m) THEN <<"yes", q[1], Tail(q)>>
                  ELSE IF Optional(q[1]) THEN After(w, Tail(q), m) ELSE <<"no">>
Take(w, k, m) == LET x == Way(w, k, TRUE)
                     r == After(w, Q(w, x), m)
                     v == [w EXCEPT !.q = (x :> r[3]) @@ @]
                 IN IF r[2].k = "ping" /\ Symbolic(r[2]) THEN [v EXCEPT !.nonce = (<<r[2].n, r[2].no>> :> m.x) @@ @] ELSE v

\* ------------------------------------------------------------------- events
Quiet(w, t) ==
  /\ \A k \in DOMAIN w.ses : w.ses[k].on =>
       /\ w.ses[k].c \notin w.dying
       /\ \E l \in DOMAIN w.ses : l # k /\ w.ses[l].on /\ w.ses[l].c = w.ses[k].c
       /\ \A i \in DOMAIN Q(w, Way(w, k, TRUE)) : Optional(Q(w, Way(w, k, TRUE))[i])
  /\ \A n \in DOMAIN w.cfg : Real(w, n) => \A x \in Range(w.cfg[n].timers) :
       t - (IF <<n, x.tok>> \in DOMAIN w.tick THEN w.tick[<<n, x.tok>>] ELSE 0) <= x.ms + 5
Can(w, e) ==
  IF e.e = "cb" THEN w.due # <<>> /\ e.cb \in w.due[1]
  ELSE /\ w.due = <<>>
       /\ CASE e.e = "up" -> Key(e) \notin DOMAIN w.ses
            [] e.e = "down" -> Key(e) \in DOMAIN w.ses /\ w.ses[Key(e)].on /\ w.ses[Key(e)].c \in w.dying
            [] e.e = "got" -> Key(e) \in DOMAIN w.ses /\ w.ses[Key(e)].on /\ After(w, Q(w, Way(w, Key(e), TRUE)), e.m)[1] = "yes"
            [] e.e \in {"put", "disc"} -> Key(e) \in DOMAIN w.ses /\ w.ses[Key(e)].on
            [] e.e = "quiet" -> Quiet(w, e.t)
            [] OTHER -> e.e \in {"cut", "tick"}
UpDo(w, e) ==
  LET k == Key(e)
      v == [w EXCEPT !.ses = (k :> [on |-> TRUE, c |-> e.c, out |-> e.out, key |-> e.key, st |-> <<>>]) @@ @]
  IN IF ~Real(w, e.n) THEN v
     ELSE CASE w.kind = "ping" -> PingUp(v, k, e) [] w.kind = "id" -> IdUp(v, k, e) [] OTHER -> DiscUp(v, k, e)
GotDo(w, e) ==
  LET k == Key(e)
      v == Take(w, k, e.m)
  IN IF ~Real(w, e.n) THEN v
     ELSE CASE w.kind = "ping" -> PingGot(v, k, e) [] w.kind = "id" -> IdGot(v, k, e) [] OTHER -> DiscGot(v, k, e)
TickDo(w, e) ==
  LET v == [w EXCEPT !.tick = (<<e.n, e.tok>> :> e.t) @@ @]
  IN CASE w.kind = "ping" -> PingTick(v, e) [] w.kind = "id" -> IdTick(v, e) [] OTHER -> DiscTick(v, e)
Do(w, e) ==
  CASE e.e = "cb" -> [w EXCEPT !.due = IF @[1] = {e.cb} THEN Tail(@) ELSE <<@[1] \ {e.cb}>> \o Tail(@)]
    [] e.e = "up" -> UpDo(w, e)
    [] e.e = "down" -> [w EXCEPT !.ses = [@ EXCEPT ![Key(e)].on = FALSE]]
    [] e.e = "got" -> GotDo(w, e)
    [] e.e = "put" -> Send(w, Key(e), e.m)
    [] e.e = "disc" -> Kill(w, {Key(e)})
    [] e.e = "cut" -> [w EXCEPT !.dying = @ \cup {e.c}]
    [] e.e = "tick" -> TickDo(w, e)
    [] OTHER -> w
=============================================================================
