------------------------------- MODULE TentMC -------------------------------
(* A few services whose users may ask for anything at any moment, over a      *)
(* network that may cut or stall connections.  Everything the services do is  *)
(* one of the events that Tent allows.  Time stands still while something can *)
(* happen and may then jump.  Checked: the guarantees of the properties,      *)
(* stated without Can and Do, and that services that cannot move have         *)
(* fulfilled all they owe.                                                    *)
EXTENDS Tent, Json
CONSTANTS KEYS,     \* identities of the nodes, as a number: see Who
          MAXC,     \* sessions a node may have
          HANDLERS, \* kinds of handlers of each protocol, as a number
          PROTOS,   \* number of protocols
          JOINED,   \* the first two nodes have a session already
          OPS,      \* what users and network may do
          LEFT,     \* and how often
          EMIT      \* programs are printed when a behaviour ends
VARIABLES w, left, now,
          tr,       \* attempts not yet begun, for each dialed address
          dead,     \* sides of connections that were given up before they opened
          got,      \* messages handed to handlers
          out,      \* requests without outcome, for each dialed address
          steady,   \* nodes whose listeners are those of the last quiet moment
          prog, ev
vars == <<w, left, now, tr, dead, got, out, steady, prog, ev>>
View == <<w, left, now, tr, dead, got, out, steady>>

Who == CASE KEYS = 2 -> <<0, 1>> [] KEYS = 3 -> <<0, 1, 2>> [] KEYS = 4 -> <<0, 1, 0>> [] KEYS = 5 -> <<-1, -1>> [] OTHER -> <<0, 0>>
Kinds == CASE HANDLERS = 1 -> <<"svc">> [] HANDLERS = 2 -> <<"svc", "ses">> [] OTHER -> <<"ev">>
(* the first protocol is common to all, the second has no common version *)
Proto(n, i) == [id |-> i, name |-> IF i = 1 THEN "p1" ELSE "p2", versions |-> IF i = 1 THEN <<"1", "2">> ELSE IF n = 0 THEN <<"1">> ELSE <<"2">>,
                select |-> "", hs |-> Kinds, svc |-> "svc" \in Range(Kinds), ses |-> "ses" \in Range(Kinds),
                fail |-> FALSE, frame |-> 1000, bs |-> FALSE, br |-> FALSE, poll |-> FALSE]
Conf(n) == [key |-> Who[n + 1], max |-> MAXC, forever |-> TRUE, timeout |-> 20000, sendbuf |-> 100000,
            protos |-> [i \in 1..PROTOS |-> Proto(n, i)]]
Ns == 0..(Len(Who) - 1)
Home(n) == IF n = 0 THEN "/n0" ELSE IF n = 1 THEN "/n1" ELSE "/n2"
RECURSIVE Up0(_)
Up0(n) == IF n < 0 THEN Fresh([i \in 1..Len(Who) |-> Conf(i - 1)])
          ELSE LET v == Do(Up0(n - 1), [e |-> "ctl", op |-> "listen", n |-> n, addr |-> Home(n), port |-> 1000, tr |-> "tcp", r |-> "ok", t |-> 0])
                   u == Do(v, [e |-> "lstart", n |-> n, addr |-> Home(n), t |-> 0])
               IN [u EXCEPT !.nd = [@ EXCEPT ![n].ini = Ids(u, n), ![n].lv = {{Home(n)}}]]
RECURSIVE Then(_, _)
Then(v, es) == IF es = <<>> THEN v ELSE IF Can(v, es[1]) THEN Then(Do(v, es[1]), Tail(es)) ELSE Assert(FALSE, es[1])
Cb(k, n, s, p, h) == [e |-> "cb", k |-> k, n |-> n, s |-> s, p |-> p, h |-> h, t |-> now]
Dial0(a, b, peer, r) == [e |-> "ctl", op |-> "dial", n |-> a, r |-> r, t |-> now, addr |-> Home(b), peer |-> peer, to |-> b, port |-> 1000, sa |-> Home(b),
                         want |-> [i \in 1..PROTOS |-> i], tr |-> "tcp"]
Joint == <<Dial0(0, 1, -1, "ok"), [e |-> "conn", c |-> 0, a |-> 0, b |-> 1, sa |-> Home(1), na |-> FALSE, t |-> 0],
           [e |-> "open", n |-> 0, s |-> 1, c |-> 0, dir |-> "out", key |-> Who[2], addr |-> Home(1), peer |-> Who[2], t |-> 0],
           [e |-> "open", n |-> 1, s |-> 1, c |-> 0, dir |-> "in", key |-> Who[1], addr |-> "in", peer |-> Who[1], t |-> 0]>>
         \o [i \in 1..2 * Len(Kinds) |-> Cb("conn", i % 2, 1, 1, Kinds[(i + 1) \div 2]) @@ [v |-> "2"]]
         \o [i \in 1..(PROTOS - 1) * 2 |-> [e |-> "err", k |-> "select", n |-> i % 2, s |-> 1, name |-> "p2", w |-> "", t |-> 0]]
         \o <<[e |-> "quiet", t |-> 0, pend |-> <<>>]>>
Init == now = 0 /\ w = Then(Up0(Len(Who) - 1), IF JOINED THEN Joint ELSE <<>>) /\ left = LEFT /\ tr = <<>> /\ dead = {} /\ got = {} /\ out = <<>> /\ steady = Ns /\ prog = <<>> /\ ev = <<>>

Note(op, e) == ev' = e /\ prog' = IF EMIT THEN Append(prog, op) ELSE prog
\* ------------------------------------------------------------ users, network
User(op, e) == /\ op \in OPS /\ left > 0 /\ left' = left - 1 /\ Can(w, e) /\ w' = Do(w, e) /\ UNCHANGED <<now, steady>>
Ctl(n, op) == [e |-> "ctl", op |-> op, n |-> n, r |-> IF w.nd[n].en THEN "broken" ELSE "ok", t |-> now]
Dials == \E a \in Ns : \E b \in Ns \ {a} : \E peer \in {-1} \cup (IF "peer" \in OPS THEN {Key(w, b), 4} ELSE {}) : (peer = -1 \/ Key(w, b) # -1) /\
  LET e == Dial0(a, b, peer, Ctl(a, "dial").r)
      k == <<a, Home(b)>>
  IN /\ (k \in DOMAIN w.dl /\ Pending(w.dl[k])) => w.dl[k].peer = peer          \* one address, one identity
     /\ User("dial", e) /\ tr' = (IF e.r = "ok" THEN Put(tr, k, Get(tr, k, 0) + 1) ELSE tr)
     /\ out' = (IF e.r = "ok" THEN Put(out, k, Get(out, k, 0) + 1) ELSE out) /\ UNCHANGED <<dead, got>> /\ Note([op |-> "dial", n |-> a, to |-> b, peer |-> peer], <<[op |-> "dial", n |-> a, to |-> b, peer |-> peer]>>)
Sends == \E k \in DOMAIN w.ss, p \in 1..PROTOS, q \in BOOLEAN :
  LET e == Ctl(k[1], "send") @@ [all |-> FALSE, to |-> <<k[2]>>, p |-> p, q |-> q, m |-> left, z |-> 10]
  IN User("send", e) /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "send", n |-> k[1], s |-> k[2], p |-> p, quick |-> IF q THEN 1 ELSE 0], <<[op |-> "send", n |-> k[1], s |-> k[2], p |-> p, quick |-> IF q THEN 1 ELSE 0]>>)
Alls == \E n \in Ns :
  LET e == Ctl(n, "send") @@ [all |-> TRUE, to |-> <<>>, p |-> 1, q |-> FALSE, m |-> left, z |-> 10]
  IN User("sendall", e) /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "send", n |-> n, ss |-> "all", p |-> 1], <<[op |-> "send", n |-> n, ss |-> "all", p |-> 1]>>)
Opens == \E k \in DOMAIN w.ss, p \in 1..PROTOS : User("openp", Ctl(k[1], "openp") @@ [s |-> k[2], want |-> <<p>>])
  /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "openp", n |-> k[1], s |-> k[2], protos |-> <<p>>], <<[op |-> "openp", n |-> k[1], s |-> k[2], protos |-> <<p>>]>>)
Closes == \E k \in DOMAIN w.ss, p \in 1..PROTOS : User("closep", Ctl(k[1], "closep") @@ [s |-> k[2], p |-> p])
  /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "closep", n |-> k[1], s |-> k[2], p |-> p], <<[op |-> "closep", n |-> k[1], s |-> k[2], p |-> p]>>)
Discs == \E k \in DOMAIN w.ss : User("disconnect", Ctl(k[1], "disconnect") @@ [s |-> k[2]])
  /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "disconnect", n |-> k[1], s |-> k[2]], <<[op |-> "disconnect", n |-> k[1], s |-> k[2]]>>)
Stops == \E n \in Ns : User("close", Ctl(n, "close")) /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "close", n |-> n], <<[op |-> "close", n |-> n]>>)
Cuts == \E c \in DOMAIN w.cn : ~w.cn[c].cut /\ User("cut", [e |-> "cut", c |-> c, t |-> now]) /\ UNCHANGED <<tr, dead, got, out>> /\ Note([op |-> "cut", c |-> c], <<[op |-> "cut", c |-> c]>>)
Rest == UNCHANGED <<tr, dead, got, out>>
Raws == \E n \in Ns : User("raw", [e |-> "conn", c |-> Cardinality(DOMAIN w.cn), a |-> Len(Who), b |-> n, sa |-> Home(n), na |-> FALSE, t |-> now]) /\ Rest
  /\ Note([op |-> "raw", to |-> n], <<"raw", n>>)
Stalls == \E c \in DOMAIN w.cn, d \in {0, 1} : User("stall", [e |-> "stall", c |-> c, d |-> d, on |-> d \notin w.cn[c].st, t |-> now]) /\ Rest
  /\ Note([op |-> "stall", c |-> c, dir |-> d, on |-> IF d \in w.cn[c].st THEN 0 ELSE 1], <<"stall", c, d>>)
Timers == \E n \in Ns, s \in {0, 1}, op \in {"notify", "unnotify"} : User("notify", Ctl(n, op) @@ [p |-> 1, s |-> s, tok |-> 1, ms |-> 500]) /\ Rest
  /\ Note([op |-> op, n |-> n, p |-> 1, s |-> s, tok |-> 1, ms |-> 500], <<op, n, s>>)
Tasks == \E n \in Ns, kind \in {"done", "sleep", "forever"} : User("task", Ctl(n, "task") @@ [i |-> Cardinality(DOMAIN w.tk) + 1, kind |-> kind, ms |-> 100]) /\ Rest
  /\ Note([op |-> "task", n |-> n, kind |-> kind, ms |-> 100, k |-> 0], <<"task", n, kind>>)
Panics == \E b \in DOMAIN w.br : w.br[b] /\ b[4] # "ev" /\ ~w.nd[b[1]].en
  /\ User("panic", [e |-> "ctl", op |-> "panic", n |-> b[1], s |-> b[2], p |-> b[3], h |-> b[4], on |-> "recv", r |-> "ok", t |-> now]) /\ Rest
  /\ Note([op |-> "none"], <<"panic", b>>)
(* a second place to listen at, and listeners that fail *)
Annex(n) == IF n = 0 THEN "/m0" ELSE IF n = 1 THEN "/m1" ELSE "/m2"
Port(addr) == IF addr \in {Annex(n) : n \in Ns} THEN 1001 ELSE 1000
Listens == \E n \in Ns : \E a \in {Home(n), Annex(n)} : Get(w.ls, <<n, a>>, NoReq).up = FALSE /\ ~Pending(Get(w.ls, <<n, a>>, NoReq))
  /\ User("listen", Ctl(n, "listen") @@ [addr |-> a, port |-> Port(a), tr |-> "tcp"]) /\ Rest
  /\ Note([op |-> "listen", n |-> n, port |-> Port(a)], <<"listen", n, a>>)
Fails == \E k \in DOMAIN w.ls : w.ls[k].up /\ ~w.ls[k].fail /\ User("acceptfail", [e |-> "acceptfail", n |-> k[1], port |-> w.ls[k].port, addr |-> k[2], t |-> now]) /\ Rest
  /\ Note([op |-> "acceptfail", n |-> k[1], port |-> w.ls[k].port], <<"acceptfail", k>>)
Env == Listens \/ Fails \/ Dials \/ Sends \/ Alls \/ Opens \/ Closes \/ Discs \/ Stops \/ Cuts \/ Raws \/ Stalls \/ Timers \/ Tasks \/ Panics

\* ------------------------------------------------------------ services
DialKey(n, to) == <<n, Home(to)>>
ConnEvs == {[e |-> "conn", c |-> Cardinality(DOMAIN w.cn), a |-> k[1], b |-> w.dl[k].to, sa |-> k[2], na |-> FALSE, t |-> now] :
              k \in {k \in DOMAIN w.dl : Pending(w.dl[k]) /\ Get(tr, k, 0) > 0 /\ ~Unreachable(w, w.dl[k].to, 1000) /\ ~Closing(w, k[1])}}
OpenEvs == {LET n == Node(w, x[1], x[2])
                key == IF Key(w, n) = -1 THEN -1 ELSE Key(w, Node(w, x[1], Flip(x[2])))
                addr == IF x[2] = "out" THEN Home(w.cn[x[1]].b) ELSE "in"
            IN [e |-> "open", n |-> n, s |-> Cardinality(w.nd[n].ids) + 1, c |-> x[1], dir |-> x[2], key |-> key, addr |-> addr,
                peer |-> AddrPeer(w, n, x[2], <<n, addr>>, key), t |-> now] : x \in {x \in ((DOMAIN w.cn) \X {"out", "in"}) \ dead : Node(w, x[1], x[2]) \in Ns}}
CloseEvs == {LET x == w.ss[k] IN [e |-> "close", n |-> k[1], s |-> k[2], c |-> x.c, dir |-> x.dir, addr |-> x.addr, key |-> x.key, peer |-> x.peer, t |-> now] :
              k \in {k \in DOMAIN w.ss : w.ss[k].open}}
SesOf(n, key) == {k[2] : k \in {k \in Open(w, n) : w.ss[k].key = key}}
(* every attempt has its own outcome *)
DialErr(k, why, x, c) == <<[e |-> "err", k |-> "dial", n |-> k[1], addr |-> k[2], peer |-> w.dl[k].peer, w |-> why, s |-> x, t |-> now], c>>
Tried(k) == {c \in DOMAIN w.cn : w.cn[c].a = k[1] /\ w.cn[c].b = w.dl[k].to /\ w.cn[c].sa = 0 /\ <<c, "out">> \notin dead}
DialErrs == UNION {{DialErr(k, "peerid", 0, c) : c \in Tried(k)} \cup {DialErr(k, "io", 0, c) : c \in {c \in Tried(k) : NeverOpen(w, c)}}
                   \cup {DialErr(k, "repeat", x, c) : x \in SesOf(k[1], Key(w, w.dl[k].to)), c \in Tried(k)}
                   \cup {DialErr(k, "io", 0, -1) : x \in {x \in {1} : Get(tr, k, 0) > 0 /\ (w.dl[k].bad \/ Unreachable(w, w.dl[k].to, 1000) \/ Closing(w, k[1]))}} : k \in DOMAIN w.dl}
ListenErrs == UNION {{<<[e |-> "err", k |-> "listen", n |-> w.cn[c].b, addr |-> Home(w.cn[c].b), w |-> "repeat", s |-> x, t |-> now], c>> :
                        x \in SesOf(w.cn[c].b, Key(w, w.cn[c].a))} : c \in {c \in DOMAIN w.cn : w.cn[c].sb = 0 /\ <<c, "in">> \notin dead}}
SelErrs == {[e |-> "err", k |-> "select", n |-> k[1], s |-> k[2], name |-> x, w |-> "", t |-> now] :
              k \in {k \in DOMAIN w.ss : w.ss[k].open}, x \in {x \in {"p1", "p2"} : \E c \in DOMAIN w.cn : <<c, x>> \in DOMAIN w.rq}}
News(k) == ~(w.ss[<<k.n, k.s>>].dir \in Rq(w, ConnOf(w, k.n, k.s), k.name).err)
Slots == {<<k[1], k[2], p, h>> : k \in DOMAIN w.ss, p \in 1..PROTOS, h \in Range(Kinds)}
ConnCbs == {Cb("conn", x[1], x[2], x[3], x[4]) @@ [v |-> "2"] : x \in Slots}
DiscCbs == {Cb("disc", x[1], x[2], x[3], x[4]) : x \in Slots}
(* where a handler may believe that its service listens *)
Looks(n) == IF "listen" \in OPS THEN {[ls |-> l] : l \in {<<>>, <<Home(n)>>, <<Annex(n)>>, <<Home(n), Annex(n)>>}} ELSE {<<>>}
RecvCbs == UNION {{Cb("recv", x[1], x[2], x[3], x[4]) @@ [m |-> w.ms[k][1].m, tr |-> ""] @@ l :
                     l \in Looks(x[1]), k \in {k \in DOMAIN w.ms : w.ms[k] # <<>> /\ k[1] = ConnOf(w, x[1], x[2])}} : x \in Slots}
(* news of listeners, and what a handler with a timer sees of them *)
ListenEvs == {[e |-> x, n |-> k[1], addr |-> k[2], t |-> now] : k \in DOMAIN w.ls, x \in {"lstart", "lclose"}}
EndEvs == ListenEvs \cup {[e |-> "end", n |-> n, r |-> "ok", t |-> now] : n \in Ns}
LateErrs == {[e |-> "err", k |-> "timeout", n |-> k[1], s |-> k[2], t |-> now] : k \in {k \in DOMAIN w.ss : w.ss[k].open /\ ~w.cn[w.ss[k].c].dy}}
PanicErrs == UNION {{[e |-> "err", k |-> "handle", n |-> n, p |-> x[1], s |-> x[2], w |-> "abnormal", t |-> now] : x \in w.nd[n].pan} : n \in Ns}
Ticks == {Cb("tick", k[1], k[3], k[2], IF k[3] = 0 THEN "svc" ELSE "ses") @@ [tok |-> k[4]] : k \in {k \in DOMAIN w.tm : w.tm[k].on}}
TaskEvs == {[e |-> "task", k |-> k, i |-> i, n |-> w.tk[i].n, t |-> now] : i \in DOMAIN w.tk, k \in {"start", "done", "cancel"}}
Plain(S) == {<<e, -1>> : e \in S}
Moves == {m \in Plain(ConnEvs \cup OpenEvs \cup CloseEvs \cup ConnCbs \cup DiscCbs \cup RecvCbs \cup EndEvs \cup LateErrs \cup PanicErrs \cup Ticks \cup TaskEvs \cup {e \in SelErrs : News(e)})
               \cup DialErrs \cup ListenErrs : Can(w, m[1])}
Sys == \E m \in Moves :
  LET e == m[1]
      dialErr == e.e = "err" /\ e.k = "dial"
      recv == e.e = "cb" /\ e.k = "recv"
      k == <<e.n, e.addr>>
  IN /\ w' = Do(w, e) /\ UNCHANGED <<left, now>>
     /\ tr' = IF e.e = "conn" THEN [tr EXCEPT ![<<e.a, e.sa>>] = @ - 1] ELSE IF dialErr /\ m[2] = -1 THEN [tr EXCEPT ![k] = @ - 1] ELSE tr
     /\ dead' = IF e.e = "err" /\ m[2] # -1 THEN dead \cup {<<m[2], IF dialErr THEN "out" ELSE "in">>} ELSE dead
     /\ got' = IF recv THEN got \cup {<<e.n, e.s, e.p, e.h, e.m>>} ELSE got
     /\ out' = IF (e.e = "open" /\ e.dir = "out") \/ dialErr THEN [out EXCEPT ![k] = @ - 1] ELSE out
     /\ IF recv THEN Assert(<<e.n, e.s, e.p, e.h, e.m>> \notin got, <<"delivered twice", e>>) ELSE TRUE
     /\ IF "ls" \in DOMAIN e /\ e.n \in steady THEN Assert(Range(e.ls) = Places(w, e.n), <<"old news", e>>) ELSE TRUE
     /\ steady' = IF e.e \in {"lstart", "lclose"} THEN steady \ {e.n} ELSE steady
     /\ Note([op |-> "run", k |-> 1], e)
QuietEv == [e |-> "quiet", t |-> now, pend |-> <<>>]
Quiet == /\ Moves = {} /\ CanQuiet(w, QuietEv) /\ w' = DoQuiet(w, QuietEv) /\ w' # w /\ tr' = <<>> /\ out' = <<>> /\ steady' = Ns /\ UNCHANGED <<left, now, dead, got>> /\ Note([op |-> "settle"], QuietEv)
Wait == IF \E k \in DOMAIN w.tm : w.tm[k].on THEN 500 ELSE 50000
Sleep == /\ "sleep" \in OPS /\ left > 0 /\ Moves = {} /\ left' = left - 1 /\ now' = now + Wait
         /\ w' = DoQuiet(w, QuietEv) /\ tr' = <<>> /\ out' = <<>> /\ steady' = Ns /\ UNCHANGED <<dead, got>> /\ Note([op |-> "settle", ms |-> Wait], <<"sleep">>)
Next == Env \/ Sys \/ Quiet \/ Sleep
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ guarantees
OnePerIdentity == \A n \in Ns : \A j, k \in Open(w, n) : (j # k /\ w.ss[j].key # -1) => w.ss[j].key # w.ss[k].key
Limit == \A n \in Ns : Cardinality(Open(w, n)) <= MAXC
TrueIdentity == \A k \in DOMAIN w.ss : LET x == w.ss[k] IN x.key # -1 => x.key = Key(w, Node(w, x.c, Flip(x.dir))) /\ x.key # Key(w, k[1])
Dialed == \A k \in DOMAIN w.ss : (w.ss[k].dir = "out" /\ w.ss[k].key # -1) => w.ss[k].peer = w.ss[k].key
Ended == \A n \in Ns : w.nd[n].en => Open(w, n) = {} /\ \A k \in DOMAIN w.ls : k[1] = n => ~w.ls[k].up
Placed == \A n \in Ns : Places(w, n) \in w.nd[n].lv
Common == \A b \in DOMAIN w.br : w.br[b] => b[3] = 1                              \* only the first protocol has a common version
AtMostOneOutcome == \A k \in DOMAIN out : out[k] >= 0
(* who cannot move owes nothing *)
NothingOwed == Moves = {} => CanQuiet(w, QuietEv)
(* and when all is said and done both sides agree *)
Agreed == (Moves = {} /\ "close" \notin OPS /\ "cut" \notin OPS) =>
  \A c \in DOMAIN w.cn : SideOpen(w, c, "out") = SideOpen(w, c, "in")
Short == [ev |-> ev, owed |-> LET q == QuietParts(w, QuietEv) IN {<<k, q[k]>> : k \in {k \in DOMAIN q : q[k] # {}}}]
Emit == (EMIT /\ (\/ Moves = {} /\ (left = 0 \/ ~ENABLED Env)
                  \/ left = 0 /\ TLCGet("level") = 85)) => PrintT(<<"PROG", ToJson(prog)>>)
=============================================================================
