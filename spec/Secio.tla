------------------------------- MODULE Secio -------------------------------
(* Handshakes and encrypted streams whose wires are in somebody's hands.      *)
(*                                                                            *)
(* A run is one side of one handshake.  It sends its proposal (frame 1), its  *)
(* exchange (frame 2: ephemeral key, signed together with both proposals),    *)
(* the echo of the other's nonce (frame 3: the first encrypted one) and then  *)
(* data.  Everything a run receives is a term: what it is, and who made it.   *)
(*   copy  frame f of run r, as it was sent                                   *)
(*   bad   the same, altered;   junk  other bytes;   over  too long           *)
(*   prop, exch, echo ("enc")   made by somebody with keys of their own       *)
(* The functions below say what a term can be taken for; nobody but the       *)
(* holder of a key can make a signature with it, and nobody without one of    *)
(* the two ephemeral keys can encrypt.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b

NewRun(e) == [key |-> e.key, max |-> e.max, free |-> e.free, ag |-> e.ag, ci |-> e.ci, di |-> e.di,
              sent |-> 0,            \* frames on the wire
              st |-> 1,              \* 1..3: which frame is waited for; 4: through; 5: failed
              got |-> <<>>, eof |-> FALSE,
              elen |-> 0,            \* length of the ephemeral key
              acc |-> 0, pay |-> <<>>, rd |-> 0, shut |-> FALSE, off |-> FALSE]
(* strict: an altered exchange can never be taken for the original one        *)
Fresh(strict) == [rs |-> <<>>, strict |-> strict]
Runs(w) == DOMAIN w.rs
R(w, i) == w.rs[i]
Got(w, i, n) == R(w, i).got[n]

Common(a, b) == \E x \in Range(a) : x \in Range(b)
ElenOf(x) == CASE x = "P-256" -> 65 [] x = "P-384" -> 97 [] OTHER -> 32
First(a, b) == LET s == SelectSeq(a, LAMBDA x : x \in Range(b)) IN s[1]

----------------------------------------------------------------------------
(* Proposals.  Their bytes are signed, so any altered one is a different one. *)
IsProp(w, t) == (t.k = "copy" /\ t.f = 1) \/ t.k = "prop"
PropId(t) == CASE t.k = "copy" /\ t.f = 1 -> <<"run", t.r>>
               [] t.k = "prop" -> <<"own", t.m>>
               [] OTHER -> <<"none", 0>>
PropKey(w, t) == IF t.k = "copy" THEN R(w, t.r).key ELSE t.key
PropAg(w, t) == IF t.k = "copy" THEN R(w, t.r).ag ELSE <<t.ag>>
PropCi(w, t) == IF t.k = "copy" THEN R(w, t.r).ci ELSE <<t.ci>>
PropDi(w, t) == IF t.k = "copy" THEN R(w, t.r).di ELSE <<t.di>>
Meets(w, i, t) == /\ Common(R(w, i).ag, PropAg(w, t)) /\ Common(R(w, i).ci, PropCi(w, t))
                  /\ Common(R(w, i).di, PropDi(w, t))
MayPass1(w, i, t) == IF IsProp(w, t) THEN PropKey(w, t) # R(w, i).key /\ Meets(w, i, t)
                     ELSE t.k \in {"bad", "junk"}
MayFail1(w, i, t) == IF IsProp(w, t) THEN PropKey(w, t) = R(w, i).key \/ ~Meets(w, i, t) \/ (t.k = "prop" /\ t.form # "c")
                     ELSE TRUE

(* Exchanges: who signed it, over which two proposals, with which ephemeral   *)
(* key.                                                                       *)
Exch(w, i, t) ==
  CASE t.k \in {"copy", "bad"} /\ t.f = 2 ->
         [by |-> R(w, t.r).key, a |-> <<"run", t.r>>, b |-> PropId(Got(w, t.r, 1)), e |-> <<"run", t.r>>, same |-> TRUE]
    [] t.k = "exch" ->
         [by |-> t.sign, a |-> IF t.swap = 1 THEN <<"run", t.b>> ELSE <<"own", t.m>>,
          b |-> IF t.swap = 1 THEN <<"own", t.m>> ELSE <<"run", t.b>>,
          e |-> IF t.epub = 0 THEN <<"own", t.m>> ELSE <<"run", t.epub>>,
          same |-> (t.signed = 0 \/ t.epub = 0)]
    [] OTHER -> [by |-> -1, a |-> <<"none", 0>>, b |-> <<"none", 0>>, e |-> <<"none", 0>>, same |-> FALSE]
(* the one agreement somebody with keys of their own offers                   *)
Usable(w, i, t) ==
  CASE t.k = "exch" -> LET p == Got(w, i, 1) IN
         IF p.k # "prop" THEN FALSE
         ELSE IF t.epub = 0 THEN t.alg = p.ag
         ELSE \E x \in Range(R(w, t.epub).ag) : x = p.ag     \* another run's key may or may not fit
    [] OTHER -> TRUE
Proves(w, i, t) ==
  LET p == Got(w, i, 1)
      x == Exch(w, i, t)
  IN /\ IsProp(w, p) /\ x.by = PropKey(w, p) /\ x.same
     /\ x.a = PropId(p) /\ x.b = <<"run", i>>
MayPass2(w, i, t) == Proves(w, i, t) /\ Usable(w, i, t) /\ (t.k = "bad" => ~w.strict)
MayFail2(w, i, t) == ~Proves(w, i, t) \/ ~Usable(w, i, t) \/ t.k = "bad" \/ (t.k = "exch" /\ t.epub # 0)

(* The echo.  i and j hold the same keys iff each has the other's ephemeral   *)
(* key and both saw the same two proposals.                                   *)
Eph(w, i) == Exch(w, i, Got(w, i, 2)).e
Paired(w, i, j) ==
  /\ i # j /\ Len(R(w, i).got) >= 2 /\ Len(R(w, j).got) >= 2
  /\ PropId(Got(w, i, 1)) = <<"run", j>> /\ PropId(Got(w, j, 1)) = <<"run", i>>
  /\ Eph(w, i) = <<"run", j>> /\ Eph(w, j) = <<"run", i>>
MayPass3(w, i, t) ==
  CASE t.k = "copy" -> t.f = 3 /\ Paired(w, i, t.r)
    [] t.k = "enc" -> /\ PropId(Got(w, i, 1)) = <<"own", t.m>> /\ Eph(w, i) = <<"own", t.m>>
                      /\ t.wrong = 0
                      (* which side is which depends on how the key is written *)
                      /\ (t.swap = 0 \/ Got(w, i, 1).form # "c")
    [] OTHER -> FALSE
MayFail3(w, i, t) == ~MayPass3(w, i, t) \/ (t.k = "enc" /\ Got(w, i, 1).k = "prop" /\ Got(w, i, 1).form # "c")

MayPass(w, i) == LET s == R(w, i).st
                     t == Got(w, i, s)
                 IN CASE s = 1 -> MayPass1(w, i, t) [] s = 2 -> MayPass2(w, i, t) [] s = 3 -> MayPass3(w, i, t) [] OTHER -> FALSE
MayFail(w, i) == LET s == R(w, i).st
                     t == Got(w, i, s)
                 IN CASE s = 1 -> MayFail1(w, i, t) [] s = 2 -> MayFail2(w, i, t) [] s = 3 -> MayFail3(w, i, t) [] OTHER -> FALSE
Has(w, i) == R(w, i).st <= 3 /\ Len(R(w, i).got) >= R(w, i).st

----------------------------------------------------------------------------
(* The stream.  What a run may read is what the frames of its peer carry, as  *)
(* far as they came in order and as they were sent.                           *)
Peer(w, i) == LET t == Got(w, i, 2) IN IF t.k \in {"copy", "bad"} THEN t.r ELSE 0
Data(w, i) == SubSeq(R(w, i).got, 4, Len(R(w, i).got))
RECURSIVE Intact(_, _, _)
Intact(p, d, n) == IF n < Len(d) /\ d[n + 1].k = "copy" /\ d[n + 1].r = p /\ d[n + 1].f = n + 4 THEN Intact(p, d, n + 1) ELSE n
In(w, i) == Intact(Peer(w, i), Data(w, i), 0)
Broken(w, i) == In(w, i) < Len(Data(w, i))
Avail(w, i) == Sum(SubSeq(R(w, Peer(w, i)).pay, 1, In(w, i))) - R(w, i).rd
Out(w, i) == Sum(R(w, i).pay)

CanSent(w, e) ==
  LET r == R(w, e.r) IN
  /\ e.n = r.sent + 1 /\ ~e.clear /\ ~e.dup
  /\ CASE e.n = 1 -> TRUE
       [] e.n = 2 -> r.st = 1 /\ Has(w, e.r) /\ MayPass(w, e.r)
       [] e.n = 3 -> r.st = 2 /\ Has(w, e.r) /\ MayPass(w, e.r)
       [] OTHER -> r.st = 4 /\ e.len >= 16 /\ e.len <= r.max
DoSent(w, e) ==
  [w EXCEPT !.rs = [@ EXCEPT ![e.r].sent = e.n, ![e.r].st = IF e.n \in 2..3 THEN e.n ELSE @,
                             ![e.r].pay = IF e.n > 3 THEN Append(@, e.len - 16) ELSE @]]
CanDone(w, e) ==
  LET r == R(w, e.r) IN
  IF e.ok THEN
    /\ r.st = 3 /\ r.sent = 3 /\ Has(w, e.r) /\ MayPass(w, e.r)
    /\ e.key = PropKey(w, Got(w, e.r, 1)) /\ e.key # r.key
    /\ LET t == Got(w, e.r, 1)
           mine == r.ag
           its == PropAg(w, t)
       IN /\ e.elen \in {ElenOf(First(mine, its)), ElenOf(First(its, mine))}
          /\ (t.k = "copy" /\ R(w, t.r).elen # 0 /\ Paired(w, e.r, t.r)) => e.elen = R(w, t.r).elen
  ELSE r.st <= 3 /\ ((Has(w, e.r) /\ MayFail(w, e.r)) \/ (~Has(w, e.r) /\ r.eof))
DoDone(w, e) == [w EXCEPT !.rs = [@ EXCEPT ![e.r].st = IF e.ok THEN 4 ELSE 5, ![e.r].elen = e.elen]]

CanWrite(w, e) ==
  LET r == R(w, e.r) IN
  /\ r.st = 4
  /\ CASE e.res = "ok" -> e.m <= e.n /\ (e.n > 0 => e.m > 0)
       [] e.res = "pend" -> ~r.free
       [] OTHER -> r.shut
DoWrite(w, e) == [w EXCEPT !.rs = [@ EXCEPT ![e.r].acc = @ + e.m]]
CanFlush(w, e) ==
  LET r == R(w, e.r) IN
  /\ r.st = 4
  /\ CASE e.res = "ok" -> Out(w, e.r) = r.acc
       [] e.res = "pend" -> ~r.free
       [] OTHER -> r.shut
DoFlush(w, e) == [w EXCEPT !.rs = [@ EXCEPT ![e.r].shut = @ \/ e.e = "close"]]
CanRead(w, e) ==
  LET r == R(w, e.r)
      a == Avail(w, e.r)
  IN /\ r.st = 4 /\ Peer(w, e.r) # 0
     /\ CASE e.res = "ok" /\ e.m > 0 -> e.m <= e.n /\ e.m <= a /\ e.from = Peer(w, e.r) /\ e.at = r.rd
          [] e.res = "ok" -> e.n = 0 \/ (a = 0 /\ r.eof /\ ~Broken(w, e.r))
          [] e.res = "pend" -> (a = 0 \/ e.n = 0) /\ ~Broken(w, e.r) /\ ~r.eof
          [] OTHER -> a = 0 /\ (Broken(w, e.r) \/ r.eof)
DoRead(w, e) == [w EXCEPT !.rs = [@ EXCEPT ![e.r].rd = @ + e.m, ![e.r].off = @ \/ e.res = "err"]]
CanBurst(w, e) == R(w, e.r).st = 4 /\ ~e.dup /\ ~e.clear /\ e.frames = e.k /\ e.read = e.k

(* when nothing moves any more, everything that arrived has been looked at    *)
CanQuiet(w, e) ==
  \A i \in Runs(w) :
    /\ e.run[i] = (R(w, i).st <= 3)
    /\ R(w, i).free => /\ ~Has(w, i) /\ (R(w, i).st <= 3 => ~R(w, i).eof)
                       /\ R(w, i).sent >= 1 /\ (R(w, i).st <= 3 => R(w, i).sent = R(w, i).st)

Can(w, e) ==
  CASE e.e = "start" -> e.r = Len(w.rs) + 1
    [] e.e = "give" -> e.to \in Runs(w) /\ ~R(w, e.to).eof
    [] e.e = "eof" -> e.to \in Runs(w)
    [] e.e = "room" -> e.r \in Runs(w)
    [] e.e = "sent" -> CanSent(w, e)
    [] e.e = "done" -> CanDone(w, e)
    [] e.e = "write" -> CanWrite(w, e)
    [] e.e \in {"flush", "close"} -> CanFlush(w, e)
    [] e.e = "read" -> CanRead(w, e)
    [] e.e = "burst" -> CanBurst(w, e)
    [] e.e = "quiet" -> CanQuiet(w, e)
    [] OTHER -> FALSE
Do(w, e) ==
  CASE e.e = "start" -> [w EXCEPT !.rs = Append(@, NewRun(e))]
    [] e.e = "give" -> [w EXCEPT !.rs = [@ EXCEPT ![e.to].got = Append(@, e.t)]]
    [] e.e = "eof" -> [w EXCEPT !.rs = [@ EXCEPT ![e.to].eof = TRUE]]
    [] e.e = "room" -> [w EXCEPT !.rs = [@ EXCEPT ![e.r].free = e.free]]
    [] e.e = "sent" -> DoSent(w, e)
    [] e.e = "done" -> DoDone(w, e)
    [] e.e = "write" -> DoWrite(w, e)
    [] e.e \in {"flush", "close"} -> DoFlush(w, e)
    [] e.e = "read" -> DoRead(w, e)
    [] OTHER -> w
=============================================================================
