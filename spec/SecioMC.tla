------------------------------ MODULE SecioMC ------------------------------
(* Runs of a few identities and somebody who decides what every run receives: *)
(* any frame of any run, altered frames, and messages made with keys of their *)
(* own (8), also in the name of others.  As on the real code, everything that *)
(* arrived is looked at before the next thing arrives.                        *)
EXTENDS Secio, Json
CONSTANTS WHO,      \* whose runs: a number, see below
          FORGE,    \* somebody makes messages of their own
          ALTER,    \* and alters others'
          DATA,     \* how many writes follow the handshake (0: none)
          GIVES,    \* how many frames are delivered at most
          EMIT      \* programs are printed when a behaviour ends
VARIABLES w, pers, left, prog
vars == <<w, pers, left, prog>>

Keys == CASE WHO = 2 -> <<1, 2>> [] WHO = 3 -> <<1, 2, 2>> [] WHO = 4 -> <<1, 2, 3>> [] OTHER -> <<1, 2, 1, 2>>
P == "P-256"
X == "X25519"
Ag(i) == IF i = 1 THEN <<P, X>> ELSE IF i = 3 THEN <<P>> ELSE <<X, P>>
StartEv(i) == [e |-> "start", r |-> i, key |-> Keys[i], max |-> 8388608, free |-> TRUE, ag |-> Ag(i),
               ci |-> <<"AES-128-GCM">>, di |-> <<"SHA256">>]
SentEv(i, n, len) == [e |-> "sent", r |-> i, n |-> n, len |-> len, dup |-> FALSE, clear |-> FALSE]
RECURSIVE Begin(_)
Begin(i) == IF i = 0 THEN Fresh(TRUE) ELSE Do(Do(Begin(i - 1), StartEv(i)), SentEv(i, 1, 100))
Init == /\ w = Begin(Len(Keys)) /\ pers = 0 /\ left = GIVES /\ prog = <<>>

Note(op) == prog' = IF EMIT THEN Append(prog, op) ELSE prog
Settled == \A i \in Runs(w) : ~Has(w, i)
Copies == {[k |-> "copy", r |-> i, f |-> f] : i \in Runs(w), f \in 1..6}
There(t) == t.f <= R(w, t.r).sent
Bads == IF ALTER THEN {[k |-> "bad", r |-> i, f |-> f] : i \in Runs(w), f \in 1..6} ELSE {}
Prop(key) == [k |-> "prop", m |-> 1, key |-> key, form |-> "c", nonce |-> 0, ag |-> P, ci |-> "AES-128-GCM", di |-> "SHA256"]
Exc(b, swap, epub, signed) == [k |-> "exch", m |-> 1, sign |-> 8, b |-> b, swap |-> swap, epub |-> epub, signed |-> signed, alg |-> P]
Exchs == {Exc(b, 0, 0, 0) : b \in Runs(w)} \cup {Exc(b, 1, 0, 0) : b \in Runs(w)}
         \cup {Exc(b, 0, q, s) : b \in Runs(w), q \in {q \in Runs(w) : R(w, q).sent >= 2}, s \in {0, 1}}
Encs == {[k |-> "enc", m |-> 1, wrong |-> x, swap |-> 0] : x \in {0, 1}}
Forged == IF ~FORGE THEN {}
          ELSE IF pers = 0 THEN {Prop(k) : k \in {8, 1, 2}}
          ELSE {Prop(pers)} \cup Exchs \cup Encs
Give(i, t) ==
  /\ Settled /\ left > 0 /\ ~R(w, i).eof /\ R(w, i).st # 5 /\ ~R(w, i).off
  /\ (t.k \in {"copy", "bad"} => There(t))
  /\ R(w, i).st = 4 => (DATA > 0 /\ t.k \in {"copy", "bad"} /\ t.f > 3)
  /\ w' = Do(w, [e |-> "give", to |-> i, t |-> t]) /\ left' = left - 1
  /\ pers' = IF t.k = "prop" THEN t.key ELSE pers
  /\ Note([op |-> "give", to |-> i, t |-> t])
Eof(i) == /\ Settled /\ left > 0 /\ ~R(w, i).eof /\ R(w, i).st # 5
          /\ w' = Do(w, [e |-> "eof", to |-> i]) /\ left' = left - 1 /\ UNCHANGED pers
          /\ Note([op |-> "eof", to |-> i])
Step(i, e) == Can(w, e) /\ w' = Do(w, e) /\ UNCHANGED <<pers, left, prog>>
Answer(i) == \E n \in {2, 3} : Step(i, SentEv(i, n, 100))
Through(i) == R(w, i).st = 3 /\ \E n \in {65, 32} :
              Step(i, [e |-> "done", r |-> i, ok |-> TRUE, key |-> PropKey(w, Got(w, i, 1)), elen |-> n, why |-> ""])
Fails(i) == Step(i, [e |-> "done", r |-> i, ok |-> FALSE, key |-> -1, elen |-> 0, why |-> ""])

(* the stream: a write is a frame, reads take one or two bytes                *)
Written == Sum([i \in 1..Len(w.rs) |-> Len(R(w, i).pay)])
WriteEv(i, n) == [e |-> "write", r |-> i, n |-> n, res |-> "ok", m |-> n]
Write(i, n) == /\ Settled /\ R(w, i).st = 4 /\ Written < DATA /\ Can(w, WriteEv(i, n))
               /\ w' = Do(Do(w, WriteEv(i, n)), SentEv(i, R(w, i).sent + 1, 16 + n)) /\ UNCHANGED <<pers, left>>
               /\ Note([op |-> "write", r |-> i, n |-> n])
ReadEv(i, n, res, m) == [e |-> "read", r |-> i, n |-> n, res |-> res, m |-> m, at |-> IF m > 0 THEN R(w, i).rd ELSE -1, from |-> IF m > 0 THEN Peer(w, i) ELSE 0]
Read(i, n) == /\ DATA > 0 /\ Settled /\ R(w, i).st = 4 /\ ~R(w, i).off
              /\ \E res \in {"ok", "err"}, m \in 0..n : (res = "err" => m = 0) /\ (res = "ok" => m > 0)
                    /\ Can(w, ReadEv(i, n, res, m)) /\ w' = Do(w, ReadEv(i, n, res, m))
              /\ UNCHANGED <<pers, left>> /\ Note([op |-> "read", r |-> i, n |-> n])

Next == \E i \in Runs(w) :
          \/ Answer(i) \/ Through(i) \/ Fails(i) \/ Eof(i)
          \/ \E t \in Copies \cup Bads \cup Forged : Give(i, t)
          \/ \E n \in {0, 2} : Write(i, n)
          \/ \E n \in {1, 2} : Read(i, n)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ok(i) == R(w, i).st = 4
Told(i) == PropKey(w, Got(w, i, 1))
(* somebody's identity is reported only to a run whose partner is a run of    *)
(* that identity, which saw the same two proposals and has the same secret    *)
Authentic == \A i \in Runs(w) : Ok(i) => (Told(i) < 8 => \E j \in Runs(w) : R(w, j).key = Told(i) /\ Paired(w, i, j))
NotSelf == \A i \in Runs(w) : Ok(i) => Told(i) # R(w, i).key
OnlyOne == \A i, j, l \in Runs(w) : (Ok(i) /\ Ok(j) /\ Paired(w, i, l) /\ Paired(w, j, l)) => i = j
Agreed == \A i, j \in Runs(w) : (Ok(i) /\ Ok(j) /\ Paired(w, i, j)) => R(w, i).elen = R(w, j).elen
(* an undisturbed pair does not fail                                          *)
Undisturbed(i, j) == /\ \A n \in DOMAIN R(w, i).got : Got(w, i, n) = [k |-> "copy", r |-> j, f |-> n]
                     /\ \A n \in DOMAIN R(w, j).got : Got(w, j, n) = [k |-> "copy", r |-> i, f |-> n]
                     /\ ~R(w, i).eof /\ ~R(w, j).eof
Completes == \A i, j \in Runs(w) : (R(w, i).key # R(w, j).key /\ Undisturbed(i, j)) => R(w, i).st # 5
(* no run is stuck on something it has                                        *)
Looks == \A i \in Runs(w) : Has(w, i) => (MayPass(w, i) \/ MayFail(w, i))
(* what is read was written by the partner, in full and in order; nothing     *)
(* behind a disturbance is read                                               *)
Faithful == \A i \in Runs(w) : (Ok(i) /\ Peer(w, i) # 0) =>
              (R(w, i).rd <= Sum(SubSeq(R(w, Peer(w, i)).pay, 1, In(w, i))) /\ R(w, i).rd <= R(w, Peer(w, i)).acc)
Emit == (EMIT /\ (TLCGet("level") = 45 \/ ~ENABLED Next)) => PrintT(<<"PROG", ToJson(prog)>>)
=============================================================================
