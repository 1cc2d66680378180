-------------------------------- MODULE Tent --------------------------------
(* Services (nodes) that listen, dial, open sessions and protocols, exchange  *)
(* messages, run timers and tasks and shut down.  The state `w` is what an    *)
(* observer of all nodes and of the network knows; every observable event e   *)
(* has a condition Can(w, e) under which it may happen and an effect          *)
(* Do(w, e).  "quiet" means that nothing moves any more: whatever had to      *)
(* happen must have happened by then.                                         *)
(*   w.cf   configuration of each node                                        *)
(*   w.nd   node -> [cl: shutdown has been asked for or caused, en: finished, *)
(*          ask: somebody asked for it, bust: handler failures, pan: those    *)
(*          not reported yet, ids: session ids used, lv: sets of places where *)
(*          it has listened since the last quiet moment]                      *)
(*   w.cn   connection -> [a, b: nodes, sa, sb: sessions (0 none), dy: has a  *)
(*          reason to end, cl: has a reason never to open, cut: broken from   *)
(*          outside, st: stalled sides]                                       *)
(*   w.ss   <<node, session>> -> [c, dir, key, addr, open, t, was: protocol   *)
(*          has been open, down: none was at the last quiet moment in time]   *)
(*   w.br   <<node, session, protocol, handler>> -> told that it is open      *)
(*   w.rq   <<connection, name>> -> [req: sides that asked, cls: close asked  *)
(*          for, live: open at the last quiet moment, err: sides that         *)
(*          reported the failed negotiation]                                  *)
(*   w.ms   <<connection, side, name, priority, handler>> -> messages sent by *)
(*          that side and still to be delivered to that handler               *)
(*   w.sub  <<node, session>> -> bytes submitted and possibly not written     *)
(*   w.dl   <<node, address>> -> dial requests without outcome                *)
(*   w.ls   <<node, address>> -> listen requests and listeners                *)
(*   w.rep  <<node, key>> -> repeated connections reported by the listener    *)
(*   w.tm   <<node, protocol, session, token>> -> timer                       *)
(*   w.pl   <<node, session, protocol, handler>> -> what its last poll gave   *)
(*   w.tk   task -> [n, kind, t, ms, st]                                      *)
(*   w.late messages for all sessions since the last quiet moment             *)
(*   w.dark nodes that cannot be reached                                      *)
(*   w.fa   <<connection, number>> -> negotiation with a peer that is no node   *)
(*          and follows no rules: what was asked, by whom, what was answered    *)
(*   w.hold <<node, session, protocol>> whose task does not read for now      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Range(s) == {s[i] : i \in DOMAIN s}
Slack == 5

\* ------------------------------------------------------------ configuration
Nodes(w) == 0..(Len(w.cf) - 1)
Cf(w, n) == w.cf[n + 1]
Key(w, n) == IF n \in Nodes(w) THEN Cf(w, n).key ELSE -1
Ids(w, n) == {Cf(w, n).protos[i].id : i \in DOMAIN Cf(w, n).protos}
ById(w, n, p) == LET i == CHOOSE i \in DOMAIN Cf(w, n).protos : Cf(w, n).protos[i].id = p IN Cf(w, n).protos[i]
Names(w, n) == IF n \in Nodes(w) THEN {Cf(w, n).protos[i].name : i \in DOMAIN Cf(w, n).protos} ELSE {}
ByName(w, n, x) == LET i == CHOOSE i \in DOMAIN Cf(w, n).protos : Cf(w, n).protos[i].name = x IN Cf(w, n).protos[i]
(* identities on both sides or on neither, and not the same one *)
Compatible(w, a, b) == IF Key(w, a) = -1 \/ Key(w, b) = -1 THEN Key(w, a) = Key(w, b) ELSE Key(w, a) # Key(w, b)

(* the version the serving side chooses from those offered, "" for none;      *)
(* version lists ascend                                                       *)
Pick(w, cv, server, x) ==
  IF x \notin Names(w, server) THEN "" ELSE
  LET sv == ByName(w, server, x).versions
      both == {i \in DOMAIN sv : sv[i] \in Range(cv)}
      pol == ByName(w, server, x).select
  IN IF both = {} \/ pol = "none" THEN ""
     ELSE IF pol = "low" THEN sv[CHOOSE i \in both : \A j \in both : i <= j]
     ELSE sv[CHOOSE i \in both : \A j \in both : i >= j]
Chosen(w, client, server, x) == IF x \notin Names(w, client) THEN "" ELSE Pick(w, ByName(w, client, x).versions, server, x)

\* ------------------------------------------------------------ derived
Node(w, c, d) == IF d = "out" THEN w.cn[c].a ELSE w.cn[c].b
Sid(w, c, d) == IF d = "out" THEN w.cn[c].sa ELSE w.cn[c].sb
Flip(d) == IF d = "out" THEN "in" ELSE "out"
IsOpen(w, n, s) == <<n, s>> \in DOMAIN w.ss /\ w.ss[<<n, s>>].open
Open(w, n) == {k \in DOMAIN w.ss : k[1] = n /\ w.ss[k].open}
SideOpen(w, c, d) == Sid(w, c, d) # 0 /\ IsOpen(w, Node(w, c, d), Sid(w, c, d))
Closing(w, n) == n \in Nodes(w) /\ w.nd[n].cl
Stalled(w, c) == w.cn[c].st # {}
(* the connection has a reason to end *)
Dying(w, c) == w.cn[c].dy \/ Closing(w, w.cn[c].a) \/ Closing(w, w.cn[c].b)
(* a reason why one side never got a session *)
NeverOpen(w, c) == w.cn[c].cl \/ Dying(w, c) \/ Stalled(w, c)
Real(w, c) == w.cn[c].a \in Nodes(w)
ConnOf(w, n, s) == w.ss[<<n, s>>].c
Rq(w, c, x) == Get(w.rq, <<c, x>>, [req |-> {}, cls |-> FALSE, live |-> FALSE, err |-> {}])
Up(w, n, s, p, h) == Get(w.br, <<n, s, p, h>>, FALSE)
Hs(w, n, p) == Range(ById(w, n, p).hs)
AllUp(w, n, s, p) == \A h \in Hs(w, n, p) : Up(w, n, s, p, h)
(* some protocol is open and not about to close *)
AnyUp(w, n, s) == \E p \in Ids(w, n) : (\E h \in Hs(w, n, p) : Up(w, n, s, p, h)) /\ ~Rq(w, ConnOf(w, n, s), ById(w, n, p).name).cls
(* somebody does not read that protocol of that connection, any of them *)
HeldAt(w, c, d, x) == \E k \in w.hold : k[1] = Node(w, c, d) /\ k[2] = Sid(w, c, d) /\ k[3] \in Ids(w, k[1]) /\ ById(w, k[1], k[3]).name = x
Held(w, c, x) == HeldAt(w, c, "out", x) \/ HeldAt(w, c, "in", x)
AnyHeld(w, c) == \E k \in w.hold : \E d \in {"out", "in"} : k[1] = Node(w, c, d) /\ k[2] = Sid(w, c, d)
(* a negotiation on a stalled connection may have been given up by the other side *)
Late(w, n, s, t) == LET x == w.ss[<<n, s>>]
                        o == Node(w, x.c, Flip(x.dir))
                    IN Stalled(w, x.c) /\ o \in Nodes(w) /\ t >= x.t + Cf(w, o).timeout
Same(w, a, b) == Key(w, a) # -1 /\ Key(w, a) = Key(w, b)
HasKey(w, n, k) == k # -1 /\ \E x \in Open(w, n) : w.ss[x].key = k
Full(w, n) == n \in Nodes(w) /\ Cardinality(Open(w, n)) >= Cf(w, n).max
HsAt(w, n, x) == IF x \in Names(w, n) THEN Hs(w, n, ByName(w, n, x).id) ELSE {}

Fresh(cf) ==
  [cf |-> cf,
   nd |-> [n \in 0..(Len(cf) - 1) |-> [cl |-> FALSE, en |-> FALSE, pan |-> {}, bust |-> {}, ask |-> FALSE, ids |-> {}, ini |-> {}, tell |-> {}, lv |-> {{}}]],
   cn |-> <<>>, ss |-> <<>>, br |-> <<>>, rq |-> <<>>, ms |-> <<>>, sub |-> <<>>, dl |-> <<>>,
   ls |-> <<>>, rep |-> <<>>, tm |-> <<>>, tk |-> <<>>, pl |-> <<>>, late |-> {}, dark |-> {}, hold |-> {}, fa |-> <<>>]

MarkDying(w, c) == [w EXCEPT !.cn = [@ EXCEPT ![c].dy = TRUE]]
(* connections with a given reason are marked *)
MarkClash(w, S) == [w EXCEPT !.cn = [c \in DOMAIN @ |-> IF c \in S THEN [@[c] EXCEPT !.cl = TRUE] ELSE @[c]]]

\* ------------------------------------------------------------ requests
NamesOf(w, n, want) == {ById(w, n, p).name : p \in Range(want) \cap Ids(w, n)}

(* something that used to be open is asked to close: what is under way may be lost *)
AskClose(w, c, x) ==
  LET q == Rq(w, c, x)
      Forget(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.must = FALSE]]
  IN [w EXCEPT !.rq = Put(@, <<c, x>>, [q EXCEPT !.cls = TRUE]),
               !.ms = [k \in DOMAIN @ |-> IF k[1] = c /\ k[3] = x THEN Forget(@[k]) ELSE @[k]]]

(* a protocol is asked for: by which side of which connection; requests for   *)
(* the same protocol under way at the same time may cancel each other         *)
RECURSIVE Ask(_, _, _, _)
Ask(w, c, d, names) ==
  IF names = {} THEN w ELSE
  LET x == CHOOSE x \in names : TRUE
      q == Rq(w, c, x)
      w1 == [w EXCEPT !.rq = Put(@, <<c, x>>, [q EXCEPT !.req = @ \cup {d}])]
  IN Ask(IF q.req # {} /\ ~q.live THEN AskClose(w1, c, x) ELSE w1, c, d, names \ {x})

(* one side cannot write or read such a message, this ends the protocol *)
Unfit(w, a, b, x, z) ==
  x \in Names(w, a) \cap Names(w, b) /\
    LET y == z + (IF ByName(w, a, x).bs THEN 1 ELSE 0)
    IN y > ByName(w, a, x).frame \/ y > ByName(w, b, x).frame \/ (ByName(w, b, x).fail /\ y \in {13, 14})
(* node n sends message e on session s *)
Sent(w, n, s, e) ==
  IF e.p \notin Ids(w, n) \/ ~IsOpen(w, n, s) THEN w
  ELSE LET c == ConnOf(w, n, s)
           d == w.ss[<<n, s>>].dir
           x == ById(w, n, e.p).name
           ks == {<<c, d, x, e.q, h>> : h \in HsAt(w, Node(w, c, Flip(d)), x)}
           must == AllUp(w, n, s, e.p) /\ ~Dying(w, c) /\ ~Rq(w, c, x).cls
           v == IF Unfit(w, n, Node(w, c, Flip(d)), x, e.z) THEN AskClose(w, c, x) ELSE w
           fits == ~Unfit(w, n, Node(w, c, Flip(d)), x, e.z)
       IN [v EXCEPT !.ms = [k \in ks |-> Append(Get(v.ms, k, <<>>), [m |-> e.m, must |-> must /\ fits])] @@ @,
                    !.sub = Put(@, <<n, s>>, Get(@, <<n, s>>, 0) + e.z)]
RECURSIVE SentAll(_, _, _, _)
SentAll(w, n, S, e) == IF S = {} THEN w ELSE LET s == CHOOSE s \in S : TRUE IN SentAll(Sent(w, n, s, e), n, S \ {s}, e)

(* requests of the same kind that may be merged while one is under way: at    *)
(* least one outcome follows (must), at most one per request                  *)
NoReq == [must |-> FALSE, may |-> 0, t |-> 0, bad |-> FALSE, peer |-> -1, to |-> -1, port |-> 0, sa |-> "", up |-> FALSE, fail |-> FALSE, gone |-> FALSE, pre |-> FALSE, tr |-> "", want |-> <<>>]
More(r) == IF r.must THEN [r EXCEPT !.may = @ + 1] ELSE [r EXCEPT !.must = TRUE]
Less(r) == IF r.must THEN [r EXCEPT !.must = FALSE] ELSE [r EXCEPT !.may = @ - 1]
Pending(r) == r.must \/ r.may > 0

Listening(w, n, port) == \E k \in DOMAIN w.ls : k[1] = n /\ w.ls[k].port = port /\ w.ls[k].up /\ ~w.ls[k].fail
Unreachable(w, to, port) == to \notin Nodes(w) \/ to \in w.dark \/ Closing(w, to) \/ ~Listening(w, to, port)
(* dials under way to a node that became unreachable *)
Spoil(w) == [w EXCEPT !.dl = [k \in DOMAIN @ |-> [@[k] EXCEPT !.bad = @ \/ Unreachable(w, w.dl[k].to, w.dl[k].port)]]]

Dial(w, e) ==
  LET k == <<e.n, e.addr>>
      r == Get(w.dl, k, NoReq)
      q == [More(r) EXCEPT !.t = e.t, !.peer = e.peer, !.to = e.to, !.port = e.port, !.sa = e.sa, !.want = e.want, !.pre = e.e = "pre", !.tr = e.tr,
              !.bad = (Pending(r) /\ r.bad) \/ Unreachable(w, e.to, e.port) \/ ~Compatible(w, e.n, e.to)]
  IN [w EXCEPT !.dl = Put(@, k, q)]
Listen(w, e) ==
  LET k == <<e.n, e.addr>>
      r == Get(w.ls, k, NoReq)
  IN IF r.up THEN [w EXCEPT !.ls = Put(@, k, [r EXCEPT !.may = @ + 1])]
     ELSE [w EXCEPT !.ls = Put(@, k, [More(r) EXCEPT !.port = e.port, !.t = e.t, !.tr = e.tr])]
(* why a dial may fail although its target listens *)
Trouble(w, n, d) ==
  \/ d.bad \/ Closing(w, n) \/ Unreachable(w, d.to, d.port)
  \/ \E c \in DOMAIN w.cn : w.cn[c].a = n /\ w.cn[c].b = d.to /\ w.cn[c].sa = 0 /\ NeverOpen(w, c)

StartClosing(w, n) == Spoil([w EXCEPT !.nd = [@ EXCEPT ![n].cl = TRUE]])

SetTimer(w, e) ==
  LET k == <<e.n, e.p, e.s, e.tok>>
      has == e.p \in Ids(w, e.n) /\ IF e.s = 0 THEN ById(w, e.n, e.p).svc ELSE ById(w, e.n, e.p).ses /\ IsOpen(w, e.n, e.s)
      old == Get(w.tm, k, [on |-> FALSE])
  IN IF ~has \/ old.on THEN w ELSE [w EXCEPT !.tm = Put(@, k, [on |-> TRUE, ms |-> e.ms, t |-> e.t, off |-> -100])]
Tell(w, e) == [w EXCEPT !.nd = [@ EXCEPT ![e.n].tell = @ \cup {e.p}]]
TellAll(w, n) == [w EXCEPT !.nd = [@ EXCEPT ![n].tell = Ids(w, n)]]
StopTimers(w, S, t) == [w EXCEPT !.tm = [k \in DOMAIN @ |-> IF k \in S /\ @[k].on THEN [@[k] EXCEPT !.on = FALSE, !.off = t] ELSE @[k]]]

(* a service that need not run for ever has nothing left to do; requests made *)
(* later than its start may not have been looked at                           *)
Idle(w, n) ==
  /\ ~Cf(w, n).forever /\ Open(w, n) = {}
  /\ \A k \in DOMAIN w.ls : k[1] = n => ~w.ls[k].up
  /\ \A k \in DOMAIN w.dl : k[1] = n => ~(w.dl[k].must /\ w.dl[k].pre)

CanCtl(w, e) ==
  IF e.op = "panic" THEN TRUE
  ELSE IF w.nd[e.n].en THEN e.r = "broken"
  ELSE IF Closing(w, e.n) \/ Idle(w, e.n) THEN e.r \in {"ok", "broken"}
  ELSE e.r = "ok"
DoCtl(w, e) ==
  IF e.r # "ok" THEN w ELSE
  CASE e.op = "dial" -> Dial(w, e)
    [] e.op = "listen" -> TellAll(Listen(w, e), e.n)
    [] e.op = "disconnect" -> IF IsOpen(w, e.n, e.s) THEN MarkDying(w, ConnOf(w, e.n, e.s)) ELSE w
    [] e.op = "send" ->
         IF e.all THEN [SentAll(w, e.n, {k[2] : k \in Open(w, e.n)}, e) EXCEPT !.late = @ \cup {e}]
         ELSE SentAll(w, e.n, Range(e.to), e)
    [] e.op = "openp" -> IF IsOpen(w, e.n, e.s) THEN Ask(w, ConnOf(w, e.n, e.s), w.ss[<<e.n, e.s>>].dir, NamesOf(w, e.n, e.want)) ELSE w
    [] e.op = "closep" ->
         IF IsOpen(w, e.n, e.s) /\ e.p \in Ids(w, e.n) THEN AskClose(w, ConnOf(w, e.n, e.s), ById(w, e.n, e.p).name) ELSE w
    [] e.op = "notify" -> SetTimer(Tell(w, e), e)
    [] e.op = "unnotify" -> StopTimers(Tell(w, e), {<<e.n, e.p, e.s, e.tok>>}, e.t)
    [] e.op = "task" -> [w EXCEPT !.tk = Put(@, e.i, [n |-> e.n, kind |-> e.kind, t |-> e.t, ms |-> e.ms, st |-> "new"])]
    [] e.op \in {"close", "shutdown"} -> StartClosing([w EXCEPT !.nd = [@ EXCEPT ![e.n].ask = TRUE]], e.n)
    [] e.op = "panic" -> LET x == <<e.p, e.s, e.h, e.on>> IN
         StartClosing([w EXCEPT !.nd = [@ EXCEPT ![e.n].pan = IF Closing(w, e.n) THEN @ ELSE @ \cup {x}, ![e.n].bust = @ \cup {x}]], e.n)
    [] OTHER -> w

\* ------------------------------------------------------------ network
CanConn(w, e) == e.c \notin DOMAIN w.cn
DoConn(w, e) ==
  LET dk == {k \in DOMAIN w.dl : k[1] = e.a /\ w.dl[k].sa = e.sa /\ Pending(w.dl[k])}
      wrong == \E k \in dk : w.dl[k].peer # -1 /\ w.dl[k].peer # Key(w, e.b)
      other == \E k \in dk : \E l \in DOMAIN w.ls : l[1] = e.b /\ w.ls[l].port = w.dl[k].port /\ w.ls[l].tr # w.dl[k].tr
      gone == \E k \in dk : Unreachable(w, e.b, w.dl[k].port)
      clash == e.na \/ wrong \/ other \/ gone \/ Full(w, e.a) \/ Full(w, e.b) \/ HasKey(w, e.a, Key(w, e.b)) \/ HasKey(w, e.b, Key(w, e.a))
                 \/ ~Compatible(w, e.a, e.b)
  IN [w EXCEPT !.cn = Put(@, e.c, [a |-> e.a, b |-> e.b, sa |-> 0, sb |-> 0, dy |-> e.a \notin Nodes(w) \/ e.na \/ (Key(w, e.a) = -1) # (Key(w, e.b) = -1), cl |-> clash, cut |-> FALSE, st |-> {}, t |-> e.t,
       up |-> IF (\E k \in dk : w.dl[k].tr # "tcp") \/ (\E l \in DOMAIN w.ls : l[1] = e.b /\ w.ls[l].tr # "tcp") THEN 2 ELSE 1])]
DoDark(w, e) == Spoil([w EXCEPT !.dark = IF e.on THEN @ \cup {e.n} ELSE @ \ {e.n}])
DoStall(w, e) ==
  [w EXCEPT !.cn = [@ EXCEPT ![e.c].st = IF e.on THEN @ \cup {e.d} ELSE @ \ {e.d},
                             ![e.c].cl = @ \/ (e.on /\ (w.cn[e.c].sa = 0 \/ w.cn[e.c].sb = 0))]]

\* ------------------------------------------------------------ sessions
(* the proven identity becomes part of the address; without identities the    *)
(* address stays as it was dialed                                             *)
AddrPeer(w, n, dir, k, key) == IF Key(w, n) = -1 /\ dir = "out" THEN Get(w.dl, k, NoReq).peer ELSE key
CanOpen(w, e) ==
  LET n == e.n
      c == e.c
      k == <<n, e.addr>>
  IN /\ ~w.nd[n].en
     /\ e.s \notin w.nd[n].ids
     /\ c \in DOMAIN w.cn
     /\ Node(w, c, e.dir) = n /\ Sid(w, c, e.dir) = 0
     /\ IF Key(w, n) = -1 THEN e.key = -1                       \* talks to anybody
        ELSE Real(w, c) /\ Compatible(w, w.cn[c].a, w.cn[c].b) /\ e.key = Key(w, Node(w, c, Flip(e.dir)))
     /\ e.peer = AddrPeer(w, n, e.dir, k, e.key)
     /\ ~HasKey(w, n, e.key)
     /\ ~Full(w, n)
     /\ (e.dir = "out" => /\ k \in DOMAIN w.dl /\ Pending(w.dl[k])
                          /\ (w.dl[k].peer # -1 /\ e.key # -1) => w.dl[k].peer = e.key)
DoOpen(w, e) ==
  LET n == e.n
      k == <<n, e.addr>>
      w1 == [w EXCEPT !.nd = [@ EXCEPT ![n].ids = @ \cup {e.s}],
                      !.cn = [@ EXCEPT ![e.c] = IF e.dir = "out" THEN [@ EXCEPT !.sa = e.s] ELSE [@ EXCEPT !.sb = e.s]],
                      !.ss = Put(@, <<n, e.s>>, [c |-> e.c, dir |-> e.dir, key |-> e.key, addr |-> e.addr, peer |-> e.peer, open |-> TRUE, t |-> e.t, was |-> FALSE, down |-> FALSE]),
                      !.dl = IF e.dir = "out" THEN [@ EXCEPT ![k] = Less(@)] ELSE @]
      w2 == IF e.dir = "out" THEN Ask(w1, e.c, "out", NamesOf(w, n, w.dl[k].want)) ELSE w1
      \* other connections of this node that now collide with this session
      w3 == MarkClash(w2, {c \in DOMAIN w2.cn : \E d \in {"in", "out"} :
                /\ Node(w2, c, d) = n /\ Sid(w2, c, d) = 0
                /\ (Full(w2, n) \/ (e.key # -1 /\ Key(w2, Node(w2, c, Flip(d))) = e.key))})
      late == {x \in w.late : x.n = n}
      RECURSIVE Each(_, _)
      Each(v, S) == IF S = {} THEN v ELSE LET x == CHOOSE x \in S : \A y \in S : x.m <= y.m IN Each(Sent(v, n, e.s, x), S \ {x})
  IN Each(w3, late)

(* a session ends only for a reason *)
(* no protocol was opened in time, although this is not reported yet *)
Lapsed(w, k, t) == k \in DOMAIN w.ss /\ w.ss[k].open /\ t >= w.ss[k].t + Cf(w, k[1]).timeout /\ ~AnyUp(w, k[1], k[2])
Reason(w, x, t) ==
  \/ Dying(w, x.c)
  \/ Sid(w, x.c, Flip(x.dir)) = 0 /\ NeverOpen(w, x.c)       \* the other side did not want it
  \/ Lapsed(w, <<Node(w, x.c, Flip(x.dir)), Sid(w, x.c, Flip(x.dir))>>, t)
(* the session itself finds that too much is waiting, on this side or the other *)
Overfull(w, c) == (Stalled(w, c) \/ AnyHeld(w, c)) /\ \E d \in {"out", "in"} :
  LET n == Node(w, c, d) IN n \in Nodes(w) /\ Get(w.sub, <<n, Sid(w, c, d)>>, 0) > Cf(w, n).sendbuf
CanClose(w, e) ==
  /\ IsOpen(w, e.n, e.s)
  /\ LET x == w.ss[<<e.n, e.s>>] IN
       /\ x.c = e.c /\ x.dir = e.dir /\ x.addr = e.addr /\ x.key = e.key /\ x.peer = e.peer
       /\ Reason(w, x, e.t) \/ Overfull(w, x.c)
DoClose(w, e) ==
  StopTimers(MarkDying([w EXCEPT !.ss = [@ EXCEPT ![<<e.n, e.s>>].open = FALSE]], e.c),
             {k \in DOMAIN w.tm : k[1] = e.n /\ k[3] = e.s}, e.t)

\* ------------------------------------------------------------ listeners
(* what callbacks see of them: one of the sets there have been since the last  *)
(* quiet moment, so nothing but the present one when none came or went         *)
Places(w, n) == {k[2] : k \in {k \in DOMAIN w.ls : k[1] = n /\ w.ls[k].up}}
Seen(w, n) == [w EXCEPT !.nd = [@ EXCEPT ![n].lv = @ \cup {Places(w, n)}]]
CanSee(w, e) == "ls" \in DOMAIN e => Range(e.ls) \in w.nd[e.n].lv

CanLstart(w, e) == LET r == Get(w.ls, <<e.n, e.addr>>, NoReq) IN ~w.nd[e.n].en /\ Pending(r) /\ ~r.up
DoLstart(w, e) == Seen(TellAll([w EXCEPT !.ls = [@ EXCEPT ![<<e.n, e.addr>>] = [Less(@) EXCEPT !.up = TRUE]]], e.n), e.n)
CanLclose(w, e) == LET r == Get(w.ls, <<e.n, e.addr>>, NoReq) IN r.up /\ (r.fail \/ Closing(w, e.n))
DoLclose(w, e) == Seen(TellAll(Spoil([w EXCEPT !.ls = [@ EXCEPT ![<<e.n, e.addr>>] = [@ EXCEPT !.up = FALSE, !.gone = FALSE, !.fail = @ /\ Closing(w, e.n)]]]), e.n), e.n)
DoAcceptFail(w, e) ==
  LET at == {k \in DOMAIN w.ls : k[1] = e.n /\ w.ls[k].port = e.port}
      ks == {k \in at : w.ls[k].up}
      soon == IF ks = {} THEN {k \in at : Pending(w.ls[k])} ELSE {}                 \* one of them, before there was news of it
      v == MarkClash(w, {c \in DOMAIN w.cn : w.cn[c].b = e.n /\ w.cn[c].sb = 0})      \* not accepted yet
  IN Spoil([v EXCEPT !.ls = [k \in DOMAIN @ |-> IF k \in ks \cup soon THEN [@[k] EXCEPT !.fail = TRUE, !.gone = k \in ks] ELSE @[k]]])

\* ------------------------------------------------------------ lawless peers
(* the version that a negotiation k with a lawless peer has to give for x *)
Settled(w, k, x) ==
  LET f == w.fa[k] IN
  IF f.by = "peer" THEN IF f.name = x THEN Pick(w, f.vs, w.cn[k[1]].b, x) ELSE ""
  ELSE IF f.rn = x /\ f.rv # <<>> /\ f.rv[Len(f.rv)] \in Range(f.vs) THEN f.rv[Len(f.rv)] ELSE ""
Lawless(w, c, x) == {k \in DOMAIN w.fa : k[1] = c /\ (w.fa[k].name = x \/ w.fa[k].rn = x)}
DoFask(w, e) == [w EXCEPT !.fa = Put(@, <<e.c, e.i>>, [by |-> "peer", name |-> e.name, vs |-> e.vs, rn |-> "", rv |-> <<>>, st |-> "new", done |-> FALSE, mute |-> FALSE, t |-> e.t])]
CanFrep(w, e) ==
  LET f == w.fa[<<e.c, e.i>>]
      v == Pick(w, f.vs, w.cn[e.c].b, f.name)
  IN ~f.done /\ e.rn = f.name /\ e.rv = IF v = "" THEN <<>> ELSE <<v>>
DoFrep(w, e) == [w EXCEPT !.fa = [@ EXCEPT ![<<e.c, e.i>>].done = TRUE]]
(* the node asks for what it was told to ask for, with the versions it has *)
CanFans(w, e) ==
  LET n == w.cn[e.c].b IN e.name \in Names(w, n) /\ "in" \in Rq(w, e.c, e.name).req /\ e.vs = ByName(w, n, e.name).versions
DoFans(w, e) == [w EXCEPT !.fa = Put(@, <<e.c, 100 + Cardinality(DOMAIN @)>>,
  [by |-> "node", name |-> e.name, vs |-> e.vs, rn |-> IF e.kind \in {"as", "honest"} THEN e.rn ELSE "", rv |-> e.rv, st |-> "new", done |-> TRUE, mute |-> e.kind = "silent", t |-> e.t])]
(* a negotiation that nothing else touched has come to its end *)
QuietFa(w, k, t) ==
  LET f == w.fa[k]
      c == k[1]
      n == w.cn[c].b
      q == Rq(w, c, f.name)
      alone == f.st = "new" /\ Lawless(w, c, f.name) = {k} /\ ~q.cls /\ (f.by = "node" => f.rn = f.name)
  IN (SideOpen(w, c, "in") /\ ~Closing(w, n)) =>
       /\ f.done
       /\ f.mute => t <= f.t + Cf(w, n).timeout + Slack             \* nobody answers: given up in time
       /\ (alone /\ Settled(w, k, f.name) = "") => "in" \in q.err
       /\ (alone /\ f.name \in Names(w, n)) =>
             {Up(w, n, w.cn[c].sb, ByName(w, n, f.name).id, h) : h \in HsAt(w, n, f.name)} \subseteq {Settled(w, k, f.name) # ""}

\* ------------------------------------------------------------ errors
Heard(w, c) == [w EXCEPT !.fa = [k \in DOMAIN @ |-> IF k[1] = c THEN [@[k] EXCEPT !.mute = FALSE] ELSE @[k]]]
RECURSIVE GiveUp(_, _, _)
GiveUp(w, c, names) == IF names = {} THEN w ELSE LET x == CHOOSE x \in names : TRUE IN GiveUp(AskClose(w, c, x), c, names \ {x})
(* timers and listeners are what a service tells the handler of a protocol;   *)
(* tell: protocols with news since the last quiet moment                      *)
HasNews(w, n, p) ==
  \/ p \in w.nd[n].tell
  \/ \E k \in DOMAIN w.ls : k[1] = n /\ (w.nd[n].ask \/ w.nd[n].bust # w.nd[n].pan \/ w.ls[k].fail)
  \/ \A x \in w.nd[n].pan : x[1] # p
CanErr(w, e) ==
  LET n == e.n IN
  /\ ~w.nd[n].en
  /\ CASE e.k = "dial" ->
            LET r == Get(w.dl, <<n, e.addr>>, NoReq) IN
            /\ Pending(r)
            /\ e.peer = r.peer
            /\ CASE e.w = "repeat" -> IsOpen(w, n, e.s) /\ e.s # 0 /\ w.ss[<<n, e.s>>].key = Key(w, r.to) /\ Key(w, r.to) # -1
                 [] e.w = "peerid" -> r.peer # -1 /\ r.peer # Key(w, r.to) /\ Key(w, r.to) # -1
                 [] OTHER -> Trouble(w, n, r)
       [] e.k = "listen" ->
            IF e.w = "repeat" THEN
              /\ IsOpen(w, n, e.s)
              /\ LET key == w.ss[<<n, e.s>>].key
                     cand == {c \in DOMAIN w.cn : w.cn[c].b = n /\ w.cn[c].sb = 0 /\ Key(w, w.cn[c].a) = key}
                 IN key # -1 /\ Get(w.rep, <<n, key>>, 0) < Cardinality(cand)
            ELSE LET r == Get(w.ls, <<n, e.addr>>, NoReq) IN
              \/ r.fail /\ (r.up \/ Closing(w, n))
              \/ /\ Pending(r)
                 /\ \E k \in DOMAIN w.ls : k[1] = n /\ w.ls[k].port = r.port /\ (w.ls[k].up \/ Pending(w.ls[k])) /\ k # <<n, e.addr>>
              \/ Pending(r) /\ (r.up \/ Closing(w, n))
              \/ Pending(r) /\ r.port < 0
       [] e.k = "select" ->
            /\ IsOpen(w, n, e.s)
            /\ LET c == ConnOf(w, n, e.s)
                   q == Rq(w, c, e.name)
               IN IF e.name = "" THEN Reason(w, w.ss[<<n, e.s>>], e.t) \/ Stalled(w, c)
                  ELSE IF ~Real(w, c) THEN \E k \in Lawless(w, c, e.name) : Settled(w, k, e.name) = ""
                  ELSE \E d \in q.req : Chosen(w, Node(w, c, d), Node(w, c, Flip(d)), e.name) = ""
       [] e.k = "proto" ->
            /\ IsOpen(w, n, e.s) /\ e.p \in Ids(w, n)
            /\ LET c == ConnOf(w, n, e.s) IN Dying(w, c) \/ Rq(w, c, ById(w, n, e.p).name).cls
       [] e.k = "timeout" -> IsOpen(w, n, e.s) /\ e.t >= w.ss[<<n, e.s>>].t + Cf(w, n).timeout /\ ~AnyUp(w, n, e.s)
       [] e.k = "muxer" -> IsOpen(w, n, e.s) /\ Reason(w, w.ss[<<n, e.s>>], e.t)
       [] e.k = "handle" ->
            /\ e.w = "abnormal"
            \* found out by the end of its task or, without the session, when there is something to tell it
            /\ \E x \in w.nd[n].bust : x[1] = e.p /\ (x[2] = e.s \/ (x[3] = "svc" /\ e.s = -1 /\ (x[2] = 0 \/ HasNews(w, n, e.p))))
       [] e.k = "blocked" -> IsOpen(w, n, e.s) /\ e.d > Cf(w, n).sendbuf /\ e.d <= Get(w.sub, <<n, e.s>>, 0)
       [] OTHER -> FALSE
DoErr(w, e) ==
  LET n == e.n IN
  CASE e.k = "dial" -> [w EXCEPT !.dl = [@ EXCEPT ![<<n, e.addr>>] = Less(@)]]
    [] e.k = "listen" ->
         IF e.w = "repeat" THEN LET k == <<n, w.ss[<<n, e.s>>].key>> IN [w EXCEPT !.rep = Put(@, k, Get(@, k, 0) + 1)]
         ELSE IF Pending(w.ls[<<n, e.addr>>]) /\ ~(w.ls[<<n, e.addr>>].fail /\ w.ls[<<n, e.addr>>].up) THEN [w EXCEPT !.ls = [@ EXCEPT ![<<n, e.addr>>] = Less(@)]] ELSE w
    [] e.k = "select" ->
         LET c == ConnOf(w, n, e.s) IN
         IF e.name = "" THEN GiveUp(Heard(w, c), c, {k[2] : k \in {k \in DOMAIN w.rq : k[1] = c /\ w.rq[k].req # {}}})
         ELSE [w EXCEPT !.rq = Put(@, <<c, e.name>>, [Rq(w, c, e.name) EXCEPT !.err = @ \cup {w.ss[<<n, e.s>>].dir}])]
    [] e.k \in {"timeout", "blocked", "muxer"} -> MarkDying(w, ConnOf(w, n, e.s))
    [] e.k = "handle" -> [w EXCEPT !.nd = [@ EXCEPT ![n].pan = {x \in @ : x[1] # e.p}]]
    [] OTHER -> w

\* ------------------------------------------------------------ callbacks
(* the next message of that priority the handler has to see, or any later one *)
(* if those in between need not arrive                                        *)
Find(s, m) ==
  IF s = <<>> THEN 0 ELSE IF s[1].m = m THEN 1
  ELSE LET fit == {i \in DOMAIN s : s[i].m = m} IN IF fit = {} THEN 0 ELSE CHOOSE i \in fit : \A j \in fit : i <= j
CanCb(w, e) ==
  LET n == e.n IN
  /\ e.p \in Ids(w, n)
  /\ CASE e.k = "init" -> e.h = "svc" /\ ById(w, n, e.p).svc /\ e.p \notin w.nd[n].ini
       [] e.k = "poll" ->
            /\ IF e.h = "svc" THEN e.s = 0 /\ ById(w, n, e.p).svc ELSE e.h = "ses" /\ ById(w, n, e.p).ses /\ <<n, e.s>> \in DOMAIN w.ss
            /\ Get(w.pl, <<n, e.s, e.p, e.h>>, "") # "N"
       [] e.k = "tick" ->
            /\ e.h = (IF e.s = 0 THEN "svc" ELSE "ses")
            /\ LET k == <<n, e.p, e.s, e.tok>> IN
                 /\ k \in DOMAIN w.tm
                 /\ w.tm[k].on \/ e.t = w.tm[k].off
                 /\ e.t >= w.tm[k].t + w.tm[k].ms
                 /\ e.t <= w.tm[k].t + w.tm[k].ms + Slack
            /\ ~w.nd[n].en
       [] OTHER ->
            LET c == ConnOf(w, n, e.s)
                d == w.ss[<<n, e.s>>].dir
                x == ById(w, n, e.p).name
                rq == Rq(w, c, x)
            IN /\ <<n, e.s>> \in DOMAIN w.ss
               /\ e.h \in Hs(w, n, e.p)
               /\ CASE e.k = "conn" ->
                         /\ (e.h = "ev" => IsOpen(w, n, e.s)) /\ ~Up(w, n, e.s, e.p, e.h)
                         /\ e.v # ""
                         /\ IF Real(w, c) THEN \E r \in rq.req : Chosen(w, Node(w, c, r), Node(w, c, Flip(r)), x) = e.v
                            ELSE \E k \in Lawless(w, c, x) : Settled(w, k, x) = e.v
                    [] e.k = "disc" ->
                         Up(w, n, e.s, e.p, e.h) /\ (rq.cls \/ Dying(w, c) \/ ~IsOpen(w, n, e.s) \/ Late(w, n, e.s, e.t) \/ Overfull(w, c))
                    [] e.k = "recv" ->
                         /\ Up(w, n, e.s, e.p, e.h) /\ (e.h = "ev" => IsOpen(w, n, e.s))
                         /\ \E q \in BOOLEAN :
                              LET s == Get(w.ms, <<c, Flip(d), x, q, e.h>>, <<>>)
                                  i == Find(s, e.m)
                              IN i # 0 /\ \A j \in 1..(i - 1) : ~s[j].must
                         /\ e.tr = (IF ById(w, n, e.p).br THEN "R" ELSE "") \o (IF ByName(w, Node(w, c, Flip(d)), x).bs THEN "S" ELSE "")
                    [] OTHER -> FALSE
DoCb(w, e) ==
  LET n == e.n IN
  CASE e.k = "init" -> [w EXCEPT !.nd = [@ EXCEPT ![n].ini = @ \cup {e.p}]]
    [] e.k = "poll" -> [w EXCEPT !.pl = Put(@, <<n, e.s, e.p, e.h>>, e.r)]
    [] e.k = "tick" -> [w EXCEPT !.tm = [@ EXCEPT ![<<n, e.p, e.s, e.tok>>].t = e.t]]
    [] e.k = "conn" -> [w EXCEPT !.br = Put(@, <<n, e.s, e.p, e.h>>, TRUE), !.ss = [@ EXCEPT ![<<n, e.s>>].was = TRUE, ![<<n, e.s>>].down = FALSE]]
    [] e.k = "disc" -> [w EXCEPT !.br = Put(@, <<n, e.s, e.p, e.h>>, FALSE)]
    [] e.k = "recv" ->
         LET c == ConnOf(w, n, e.s)
             from == Flip(w.ss[<<n, e.s>>].dir)
             x == ById(w, n, e.p).name
             q == Find(Get(w.ms, <<c, from, x, TRUE, e.h>>, <<>>), e.m) # 0
             k == <<c, from, x, q, e.h>>
         IN [w EXCEPT !.ms = [@ EXCEPT ![k] = SubSeq(@, Find(@, e.m) + 1, Len(@))]]

\* ------------------------------------------------------------ tasks, end
CanTask(w, e) ==
  /\ e.i \in DOMAIN w.tk /\ w.tk[e.i].n = e.n
  /\ LET k == w.tk[e.i] IN
     CASE e.k = "start" -> k.st = "new"
       [] e.k = "done" -> k.st = "run" /\ k.kind # "forever" /\ (k.kind = "sleep" => e.t >= k.t + k.ms)
       [] e.k = "cancel" -> k.st = "run" /\ (Closing(w, e.n) \/ Idle(w, e.n))
DoTask(w, e) == [w EXCEPT !.tk = [@ EXCEPT ![e.i].st = IF e.k = "start" THEN "run" ELSE "done"]]

CanEnd(w, e) ==
  /\ e.r = "ok" /\ ~w.nd[e.n].en
  /\ Open(w, e.n) = {}
  /\ w.nd[e.n].ask \/ w.nd[e.n].pan = {}                       \* failures have been reported
  /\ \A k \in DOMAIN w.ls : k[1] = e.n => ~w.ls[k].up
  /\ Closing(w, e.n) \/ Idle(w, e.n)
DoEnd(w, e) == LET v == [w EXCEPT !.nd = [@ EXCEPT ![e.n].en = TRUE, ![e.n].cl = TRUE]] IN
  StopTimers(Spoil(v), {k \in DOMAIN v.tm : k[1] = e.n}, e.t)

\* ------------------------------------------------------------ quiet
(* everything that was to happen has happened *)
(* only one side encrypts: both find out, at the latest by their timeouts *)
Mixed(w, c) == Real(w, c) /\ (Key(w, w.cn[c].a) = -1) # (Key(w, w.cn[c].b) = -1)
Timeouts(w, c) == Cf(w, w.cn[c].a).timeout + Cf(w, w.cn[c].b).timeout
QuietConn(w, c, t) ==
  \/ Stalled(w, c)
  \/ Mixed(w, c) /\ t <= w.cn[c].t + Timeouts(w, c) + Slack
  \/ LET a == SideOpen(w, c, "out")
         b == SideOpen(w, c, "in")
     IN /\ (Real(w, c) => a = b)
        /\ (Dying(w, c) /\ (Real(w, c) \/ w.cn[c].cut)) => ~a /\ ~b
        /\ (~NeverOpen(w, c)) => a /\ b
QuietProto(w, c, x) ==
  LET q == Rq(w, c, x)
      a == w.cn[c].a
      b == w.cn[c].b
      ups == {Up(w, a, w.cn[c].sa, ByName(w, a, x).id, h) : h \in Hs(w, a, ByName(w, a, x).id)}
               \cup {Up(w, b, w.cn[c].sb, ByName(w, b, x).id, h) : h \in Hs(w, b, ByName(w, b, x).id)}
      can == \E d \in q.req : Chosen(w, Node(w, c, d), Node(w, c, Flip(d)), x) # ""
  IN (q.cls /\ Held(w, c, x)) \/
     /\ Cardinality(ups) <= 1
     /\ (q.req # {} /\ ~q.cls) => ups = {q.live \/ can}
     /\ (q.req = {} /\ q.cls) => ups = {FALSE}
     /\ (q.req = {} /\ ~q.cls) => ups = {q.live}
     /\ (~q.cls) => \A k \in DOMAIN w.ms : (k[1] = c /\ k[3] = x /\ ~HeldAt(w, c, Flip(k[2]), x)) => \A i \in DOMAIN w.ms[k] : ~w.ms[k][i].must
(* a failed negotiation has been reported on both sides *)
QuietSelect(w, c, x) ==
  LET q == Rq(w, c, x)
  IN (q.req # {} /\ ~q.live /\ ~q.cls /\ \A d \in q.req : Chosen(w, Node(w, c, d), Node(w, c, Flip(d)), x) = "") => q.err = {"in", "out"}
QuietSession(w, k, t) ==
  LET x == w.ss[k]
      n == k[1]
  IN x.open /\ ~w.nd[n].en => (t > x.t + Cf(w, n).timeout + Slack => x.was /\ ~x.down)
(* handlers have been told about sessions that ended, unless the node itself ended *)
(* (a stream that waits for room notices when the connection is done with) *)
QuietBracket(w, k) ==
  w.br[k] => \/ IsOpen(w, k[1], k[2]) \/ Closing(w, k[1])
             \/ Stalled(w, ConnOf(w, k[1], k[2])) \/ <<k[1], k[2], k[3]>> \in w.hold
QuietDial(w, k, t) ==
  LET r == w.dl[k]
  IN r.must => \/ Closing(w, k[1])
               \/ Trouble(w, k[1], r) /\ t <= r.t + 2 * Cf(w, k[1]).timeout + Slack
(* an end of a connection that became no session is given up in time (with an  *)
(* upgrade of the transport, which has its own time, up is 2), and a node that *)
(* has ended keeps nothing; nor is there anything left of a session that has   *)
(* been closed (a peer that is no node may be waited for)                      *)
QuietEnd(w, c, d, t) ==
  LET n == Node(w, c, d) IN
  n \in Nodes(w) => /\ ~w.nd[n].en
                    /\ Sid(w, c, d) = 0 => t <= w.cn[c].t + w.cn[c].up * Cf(w, n).timeout + Slack
                    /\ (Sid(w, c, d) # 0 /\ Real(w, c) /\ ~Stalled(w, c)) => IsOpen(w, n, Sid(w, c, d))
QuietListen(w, k) == (w.ls[k].must => Closing(w, k[1])) /\ ~w.ls[k].gone
QuietTimer(w, k, t) == (w.tm[k].on /\ ~Closing(w, k[1])) => t <= w.tm[k].t + w.tm[k].ms + Slack
QuietTask(w, i, t) ==
  LET k == w.tk[i]
  IN IF w.nd[k.n].en THEN k.st # "run"
     ELSE Closing(w, k.n) \/ CASE k.kind = "forever" -> k.st = "run"
                               [] k.kind = "sleep" -> IF t > k.t + k.ms + Slack THEN k.st = "done" ELSE k.st \in {"run", "done"}
                               [] OTHER -> k.st = "done"
(* nothing is left that could keep a service running that need not run for ever *)
Spent(w, n) ==
  /\ ~Cf(w, n).forever /\ Open(w, n) = {}
  /\ \A k \in DOMAIN w.ls : k[1] = n => ~w.ls[k].up /\ ~w.ls[k].must
  /\ \A k \in DOMAIN w.dl : k[1] = n => ~w.dl[k].must
QuietNode(w, n) ==
  /\ Spent(w, n) => w.nd[n].en
  /\ w.nd[n].cl => (w.nd[n].en /\ (w.nd[n].ask \/ w.nd[n].pan = {}))
  /\ (~w.nd[n].cl) => \A p \in Ids(w, n) : ById(w, n, p).svc => p \in w.nd[n].ini
  /\ \A key \in -1..9 :
       Get(w.rep, <<n, key>>, 0) <= Cardinality({c \in DOMAIN w.cn : w.cn[c].b = n /\ w.cn[c].sb = 0 /\ Key(w, w.cn[c].a) = key})
(* a handler's own poll has been called, and again while it had more to do *)
QuietPoll(w, n) ==
  Closing(w, n) \/ \A p \in Ids(w, n) : ById(w, n, p).poll =>
    /\ ById(w, n, p).svc => Get(w.pl, <<n, 0, p, "svc">>, "S") # "S"
    /\ ById(w, n, p).ses => \A k \in Open(w, n) : Get(w.pl, <<n, k[2], p, "ses">>, "S") # "S"
QuietPend(w, p) ==
  LET k == <<p.n, p.s>>
  IN /\ p.d >= 0
     /\ (k \in DOMAIN w.ss /\ w.ss[k].open) =>
          IF Stalled(w, w.ss[k].c) \/ AnyHeld(w, w.ss[k].c) THEN p.d <= Get(w.sub, k, 0) ELSE p.d = 0
Both(w, c) == Real(w, c) /\ SideOpen(w, c, "out") /\ SideOpen(w, c, "in") /\ ~Stalled(w, c) /\ ~Dying(w, c)
QuietParts(w, e) ==
  [conns |-> {c \in DOMAIN w.cn : ~QuietConn(w, c, e.t)},
   protos |-> {<<c, x>> \in (DOMAIN w.cn) \X (UNION {Names(w, n) : n \in Nodes(w)}) :
                 /\ Both(w, c)
                 /\ \/ x \in Names(w, w.cn[c].a) \cap Names(w, w.cn[c].b) /\ ~QuietProto(w, c, x)
                    \/ x \in Names(w, w.cn[c].a) \cup Names(w, w.cn[c].b) /\ ~QuietSelect(w, c, x)},
   lawless |-> {k \in DOMAIN w.fa : ~QuietFa(w, k, e.t)},
   ends |-> IF "ends" \in DOMAIN e THEN {x \in Range(e.ends) : ~QuietEnd(w, x.c, x.d, e.t)} ELSE {},
   sessions |-> {k \in DOMAIN w.ss : ~QuietSession(w, k, e.t)},
   brackets |-> {k \in DOMAIN w.br : ~QuietBracket(w, k)},
   dials |-> {k \in DOMAIN w.dl : ~QuietDial(w, k, e.t)},
   listens |-> {k \in DOMAIN w.ls : ~QuietListen(w, k)},
   timers |-> {k \in DOMAIN w.tm : ~QuietTimer(w, k, e.t)},
   tasks |-> {i \in DOMAIN w.tk : ~QuietTask(w, i, e.t)},
   nodes |-> {n \in Nodes(w) : ~QuietNode(w, n)},
   polls |-> {n \in Nodes(w) : ~QuietPoll(w, n)},
   pend |-> {i \in DOMAIN e.pend : ~QuietPend(w, e.pend[i])}]
CanQuiet(w, e) == LET q == QuietParts(w, e) IN \A f \in DOMAIN q : q[f] = {}
(* what is settled is forgotten *)
DoQuiet(w, e) ==
  LET keep(c) == Stalled(w, c) \/ AnyHeld(w, c)
      Live(c, x) == LET a == w.cn[c].a IN
                    Both(w, c) /\ x \in Names(w, a) /\ \E h \in Hs(w, a, ByName(w, a, x).id) : Up(w, a, w.cn[c].sa, ByName(w, a, x).id, h)
  IN [w EXCEPT
       !.ss = [k \in DOMAIN @ |->
                 IF @[k].open /\ e.t < @[k].t + Cf(w, k[1]).timeout /\ ~keep(@[k].c)
                 THEN [@[k] EXCEPT !.down = \A p \in Ids(w, k[1]) : \A h \in Hs(w, k[1], p) : ~Up(w, k[1], k[2], p, h)]
                 ELSE @[k]],
       !.ms = [k \in {k \in DOMAIN @ : keep(k[1])} |-> @[k]],
       !.sub = [k \in {k \in DOMAIN @ : k \in DOMAIN w.ss /\ keep(w.ss[k].c)} |-> @[k]],
       !.rq = [k \in DOMAIN @ |-> IF Stalled(w, k[1]) \/ (@[k].cls /\ Held(w, k[1], k[2])) THEN @[k] ELSE [req |-> {}, cls |-> FALSE, live |-> Live(k[1], k[2]), err |-> {}]],
       !.dl = [k \in {k \in DOMAIN @ : @[k].must} |-> @[k]],
       !.ls = [k \in {k \in DOMAIN @ : @[k].must \/ @[k].up} |-> [@[k] EXCEPT !.may = 0]],
       !.fa = [k \in DOMAIN @ |-> [@[k] EXCEPT !.st = "old"]],
       !.nd = [n \in DOMAIN @ |-> [@[n] EXCEPT !.tell = {}, !.lv = {Places(w, n)}]],
       !.late = {}]

\* ------------------------------------------------------------ any event
Can(w, e) ==
  CanSee(w, e) /\
  CASE e.e = "ctl" -> CanCtl(w, e)
    [] e.e = "pre" -> TRUE
    [] e.e = "conn" -> CanConn(w, e)
    [] e.e \in {"cut", "stall", "dark", "acceptfail", "hold", "fask"} -> TRUE
    [] e.e = "frep" -> CanFrep(w, e)
    [] e.e = "fans" -> CanFans(w, e)
    [] e.e = "open" -> CanOpen(w, e)
    [] e.e = "close" -> CanClose(w, e)
    [] e.e = "lstart" -> CanLstart(w, e)
    [] e.e = "lclose" -> CanLclose(w, e)
    [] e.e = "err" -> CanErr(w, e)
    [] e.e = "cb" -> CanCb(w, e)
    [] e.e = "task" -> CanTask(w, e)
    [] e.e = "end" -> CanEnd(w, e)
    [] e.e = "quiet" -> CanQuiet(w, e)
    [] OTHER -> FALSE
Do(w, e) ==
  CASE e.e = "ctl" -> DoCtl(w, e)
    [] e.e = "pre" -> IF e.r # "ok" THEN w ELSE IF e.op = "dial" THEN Dial(w, e) ELSE Listen(w, e)
    [] e.e = "conn" -> DoConn(w, e)
    [] e.e = "cut" -> [w EXCEPT !.cn = [@ EXCEPT ![e.c].dy = TRUE, ![e.c].cut = TRUE]]
    [] e.e = "stall" -> DoStall(w, e)
    [] e.e = "dark" -> DoDark(w, e)
    [] e.e = "hold" -> [w EXCEPT !.hold = IF e.on THEN @ \cup {<<e.n, e.s, e.p>>} ELSE @ \ {<<e.n, e.s, e.p>>}]
    [] e.e = "fask" -> DoFask(w, e)
    [] e.e = "frep" -> DoFrep(w, e)
    [] e.e = "fans" -> DoFans(w, e)
    [] e.e = "acceptfail" -> DoAcceptFail(w, e)
    [] e.e = "open" -> DoOpen(w, e)
    [] e.e = "close" -> DoClose(w, e)
    [] e.e = "lstart" -> DoLstart(w, e)
    [] e.e = "lclose" -> DoLclose(w, e)
    [] e.e = "err" -> DoErr(w, e)
    [] e.e = "cb" -> DoCb(w, e)
    [] e.e = "task" -> DoTask(w, e)
    [] e.e = "end" -> DoEnd(w, e)
    [] e.e = "quiet" -> DoQuiet(w, e)
=============================================================================
