-------------------------------- MODULE Yamux --------------------------------
(***************************************************************************)
(* Two yamux endpoints (YamuxEnd) joined by two reliable wires, with an     *)
(* application on each side.  Checked: what an application wrote is what    *)
(* the other one reads, the accounting of credit, the end of a stream only  *)
(* after its data, the limits, and that the obligations of QuietOK can be   *)
(* met: whenever no internal step is possible, nothing is left undone.      *)
(*                                                                         *)
(* In simulation mode the module also produces programs: the sequence of    *)
(* user operations of each behaviour, to be executed on the implementation. *)
(***************************************************************************)
EXTENDS YamuxEnd, TLC, Json

CONSTANTS W,          \* window
          AllIds,     \* stream ids: odd ones are opened by side 0
          MAXW,       \* bytes written per stream and direction
          MAXSTREAMS, \* configured limit
          OPS,        \* names of the user operations in use
          DEPTH,      \* simulation: length of the behaviours that are printed
          USERSTEPS,  \* bound on user operations
          LATE        \* a session is closed only after that many of them

VARIABLES ep, wire, want, rdg, wrote, got, prog, users

vars == <<ep, wire, want, rdg, wrote, got, prog, users>>

Side == {0, 1}
Cfg(e) == [w |-> W, max |-> MAXSTREAMS, backlog |-> 4, ka |-> 0, wt |-> 1000, wide |-> TRUE,
           role |-> IF e = 0 THEN "client" ELSE "server"]

Init ==
  /\ ep = [e \in Side |-> NewEnd(Cfg(e))]
  /\ wire = [e \in Side |-> <<>>]
  /\ want = [e \in Side |-> [s \in AllIds |-> 0]]
  /\ rdg = [e \in Side |-> {}]
  /\ wrote = [e \in Side |-> [s \in AllIds |-> <<>>]]
  /\ got = [e \in Side |-> [s \in AllIds |-> <<>>]]
  /\ prog = <<>>
  /\ users = 0

Fr(t, s, fl, n, d) == [t |-> t, s |-> s, fl |-> fl, n |-> n, d |-> d]

User(op) == /\ users < USERSTEPS /\ users' = users + 1 /\ prog' = Append(prog, op)
Internal == UNCHANGED <<prog, users>>
Have(e) == {s \in Ids(ep[e]) : ep[e].S[s].h = "app"}

----------------------------------------------------------------------------
(* user operations *)

UOpen(e) ==
  /\ "open" \in OPS
  /\ \E s \in {x \in AllIds : x % 2 = ep[e].own /\ x \notin Ids(ep[e])} :
       /\ \A x \in AllIds : (x % 2 = ep[e].own /\ x < s) => x \in Ids(ep[e])
       /\ \E r \in Step(ep[e], [e |-> "open", s |-> s, ctl |-> FALSE]) : ep' = [ep EXCEPT ![e] = r]
  /\ User(<<"open", e, "direct">>)
  /\ UNCHANGED <<wire, want, rdg, wrote, got>>

UWrite(e) ==
  /\ "write" \in OPS
  /\ \E s \in Have(e), n \in 1..MAXW :
       /\ want[e][s] = 0
       /\ Len(wrote[e][s]) + n <= MAXW
       /\ want' = [want EXCEPT ![e][s] = n]
       /\ User(<<"write", e, s, n, 0>>)
  /\ UNCHANGED <<ep, wire, rdg, wrote, got>>

URead(e) ==
  /\ "read" \in OPS
  /\ \E s \in Have(e) \ rdg[e] :
       /\ rdg' = [rdg EXCEPT ![e] = @ \cup {s}]
       /\ User(<<"read", e, s, W, 1>>)
  /\ UNCHANGED <<ep, wire, want, wrote, got>>

UStopRead(e) ==
  /\ "stopread" \in OPS
  /\ \E s \in Have(e) \cap rdg[e] :
       /\ rdg' = [rdg EXCEPT ![e] = @ \ {s}]
       /\ User(<<"stopread", e, s>>)
  /\ UNCHANGED <<ep, wire, want, wrote, got>>

UShut(e) ==
  /\ "shut" \in OPS
  /\ \E s \in Have(e) :
       /\ ~ep[e].S[s].lc
       /\ \E r \in Step(ep[e], [e |-> "shut", s |-> s, ok |-> TRUE]) : ep' = [ep EXCEPT ![e] = r]
       /\ want' = [want EXCEPT ![e][s] = 0]
       /\ User(<<"shut", e, s>>)
  /\ UNCHANGED <<wire, rdg, wrote, got>>

UDrop(e) ==
  /\ "drop" \in OPS
  /\ \E s \in Have(e) :
       /\ \E r \in Step(ep[e], [e |-> "drop", s |-> s]) : ep' = [ep EXCEPT ![e] = r]
       /\ want' = [want EXCEPT ![e][s] = 0]
       /\ rdg' = [rdg EXCEPT ![e] = @ \ {s}]
       /\ User(<<"drop", e, s>>)
  /\ UNCHANGED <<wire, wrote, got>>

UClose(e) ==
  /\ "close" \in OPS /\ users >= LATE
  /\ ~ep[e].closeReq
  /\ \E r \in Step(ep[e], [e |-> "close"]) : ep' = [ep EXCEPT ![e] = r]
  /\ User(<<"close", e>>)
  /\ UNCHANGED <<wire, want, rdg, wrote, got>>

UDropSess(e) ==
  /\ "dropsess" \in OPS /\ users >= LATE
  /\ ~ep[e].ended
  /\ \E r \in Step(ep[e], [e |-> "dropsess"]) : ep' = [ep EXCEPT ![e] = r]
  /\ User(<<"dropsess", e>>)
  /\ UNCHANGED <<wire, want, rdg, wrote, got>>

----------------------------------------------------------------------------
(* internal steps *)

Byte(e, s, k) == 10 * s + 5 * e + k

Write(e) ==
  \E s \in Have(e) :
    /\ want[e][s] > 0
    /\ \/ \E n \in 1..want[e][s] :
            LET d == [k \in 1..n |-> Byte(e, s, Len(wrote[e][s]) + k)] IN
            /\ \E r \in Step(ep[e], [e |-> "wr", s |-> s, n |-> n, d |-> d]) : ep' = [ep EXCEPT ![e] = r]
            /\ want' = [want EXCEPT ![e][s] = @ - n]
            /\ wrote' = [wrote EXCEPT ![e][s] = @ \o d]
       \/ /\ \E r \in Step(ep[e], [e |-> "wrerr", s |-> s]) : ep' = [ep EXCEPT ![e] = r]
          /\ want' = [want EXCEPT ![e][s] = 0]
          /\ UNCHANGED wrote
    /\ UNCHANGED <<wire, rdg, got>> /\ Internal

Read(e) ==
  \E s \in Have(e) \cap rdg[e] :
    LET r0 == ep[e].S[s] IN
    /\ \/ \E n \in 1..Len(r0.iq) :
            /\ \E r \in Step(ep[e], [e |-> "rd", s |-> s, d |-> SubSeq(r0.iq, 1, n)]) : ep' = [ep EXCEPT ![e] = r]
            /\ got' = [got EXCEPT ![e][s] = @ \o SubSeq(r0.iq, 1, n)]
            /\ UNCHANGED rdg
       \/ /\ \E ev \in {[e |-> "rderr", s |-> s, k |-> "Eof"], [e |-> "rderr", s |-> s, k |-> "InvalidData"]} :
               \E r \in Step(ep[e], ev) : ep' = [ep EXCEPT ![e] = r]
          /\ rdg' = [rdg EXCEPT ![e] = @ \ {s}]
          /\ UNCHANGED got
    /\ UNCHANGED <<wire, want, wrote>> /\ Internal

(* every frame an endpoint might want to transmit *)
Offers(e) ==
  LET E == ep[e]
      first(s) == IF ~E.S[s].first THEN 0 ELSE IF E.S[s].dir = "out" THEN 1 ELSE 2
      str == {s \in Ids(E) : E.S[s].h # "ref"} IN
  UNION {
    {Fr("wu", s, first(s), c, <<>>) : c \in
        LET r == E.S[s] IN {c \in 0..W : (c > 0 \/ r.first) /\ r.h # "gone" /\ ~r.lc}}
    \cup {Fr("wu", s, first(s) + 4, 0, <<>>) : x \in IF E.S[s].lc /\ ~E.S[s].finTx THEN {1} ELSE {}}
    \cup {Fr("wu", s, first(s) + 8, 0, <<>>) : x \in IF E.S[s].h = "gone" /\ ~E.S[s].rstTx /\ ~E.S[s].finTx THEN {1} ELSE {}}
    \cup {Fr("wu", s, 10, 0, <<>>) : x \in IF E.S[s].h = "syn" THEN {1} ELSE {}}
    \cup {Fr("data", s, first(s), n, SubSeq(E.S[s].oq, 1, n)) : n \in 1..Len(E.S[s].oq)}
    : s \in str }
  \cup {Fr("ga", 0, 0, c, <<>>) : c \in {0, 1}}

Tx(e) ==
  /\ ~ep[e].ended /\ ep[e].la = -1
  /\ \E f \in Offers(e) :
       /\ \E r \in Step(ep[e], [e |-> "tx", f |-> f]) : ep' = [ep EXCEPT ![e] = r]
       /\ wire' = [wire EXCEPT ![e] = Append(@, f)]
  /\ UNCHANGED <<want, rdg, wrote, got>> /\ Internal

Rx(e) ==
  /\ wire[1 - e] # <<>>
  /\ wire' = [wire EXCEPT ![1 - e] = Tail(@)]
  /\ IF ep[e].ended THEN UNCHANGED ep
     ELSE \E r \in Step(ep[e], [e |-> "rx", f |-> Head(wire[1 - e])]) : ep' = [ep EXCEPT ![e] = r]
  /\ UNCHANGED <<want, rdg, wrote, got>> /\ Internal

Eof(e) ==
  /\ wire[1 - e] = <<>> /\ ep[1 - e].ended /\ ~ep[e].eof /\ ~ep[e].ended
  /\ \E r \in Step(ep[e], [e |-> "rxeof"]) : ep' = [ep EXCEPT ![e] = r]
  /\ UNCHANGED <<wire, want, rdg, wrote, got>> /\ Internal

Accept(e) ==
  /\ \E s \in Ids(ep[e]) : \E r \in Step(ep[e], [e |-> "accept", s |-> s]) : ep' = [ep EXCEPT ![e] = r]
  /\ UNCHANGED <<wire, want, rdg, wrote, got>> /\ Internal

End(e) ==
  /\ \E r \in Step(ep[e], [e |-> "end", k |-> "None"]) : ep' = [ep EXCEPT ![e] = r]
  /\ UNCHANGED <<wire, want, rdg, wrote, got>> /\ Internal

Inner == \E e \in Side : Write(e) \/ Read(e) \/ Tx(e) \/ Rx(e) \/ Eof(e) \/ Accept(e) \/ End(e)
Outer == \E e \in Side : UOpen(e) \/ UWrite(e) \/ URead(e) \/ UStopRead(e) \/ UShut(e) \/ UDrop(e) \/ UClose(e) \/ UDropSess(e)
Next == Inner \/ Outer
Spec == Init /\ [][Next]_vars

View == <<ep, wire, want, rdg, wrote, got, users>>

----------------------------------------------------------------------------
(* properties *)

RECURSIVE Flat(_, _)
Flat(w, s) == IF w = <<>> THEN <<>>
              ELSE (IF Head(w).t = "data" /\ Head(w).s = s THEN Head(w).d ELSE <<>>) \o Flat(Tail(w), s)
RECURSIVE Credit(_, _)
Credit(w, s) == IF w = <<>> THEN 0
                ELSE (IF Head(w).t = "wu" /\ Head(w).s = s THEN Head(w).n ELSE 0) + Credit(Tail(w), s)

Open(e, s) == s \in Ids(ep[e]) /\ ep[e].S[s].h \in {"app", "pend", "syn"} /\ ~ep[e].S[s].rrst
              /\ ~ep[e].S[s].seen /\ ~ep[e].ended /\ ~ep[e].ra /\ ep[e].la = -1

(* what is read is a prefix of what was written, whatever happens *)
Integrity == \A e \in Side, s \in AllIds : IsPrefix(got[e][s], wrote[1 - e][s])

(* on an open stream every byte is somewhere, once and in order *)
Conservation ==
  \A e \in Side, s \in AllIds :
    Open(e, s) /\ Open(1 - e, s) =>
      wrote[1 - e][s] = got[e][s] \o ep[e].S[s].iq \o Flat(wire[1 - e], s) \o ep[1 - e].S[s].oq

(* credit is neither created nor lost, and bounds what an endpoint holds *)
Accounting ==
  \A e \in Side, s \in AllIds :
    /\ s \in Ids(ep[e]) => Len(ep[e].S[s].iq) <= W /\ ep[e].S[s].rw \in 0..W /\ ep[e].S[s].sw \in 0..W
    /\ Open(e, s) /\ Open(1 - e, s) =>
         ep[1 - e].S[s].sw + Len(Flat(wire[1 - e], s)) + Credit(wire[e], s) = ep[e].S[s].rw

(* conforming endpoints never see a violation *)
NoViolation == \A e \in Side : ~ep[e].perr /\ ~ep[e].malf /\ \A s \in Ids(ep[e]) : ~ep[e].S[s].bad

(* the end of the stream is reported only after all of its data *)
EofComplete ==
  \A e \in Side, s \in AllIds :
    (s \in Ids(ep[e]) /\ ep[e].S[s].seen /\ ep[e].S[s].rfin /\ ~ep[e].S[s].rrst /\ ~ep[e].S[s].lc /\ ~ep[e].ended)
       => got[e][s] = wrote[1 - e][s]

Limits == \A e \in Side :
  Cardinality({s \in Live(ep[e]) : ep[e].S[s].dir = "in"}) <= MAXSTREAMS

(* nothing can be done any more, so nothing may be owed *)
Quiescent == ~ENABLED Inner
SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Settled ==
  Quiescent => \A e \in Side :
    QuietOK(ep[e], [pr |-> SeqOf(rdg[e]), pw |-> SeqOf({s \in Have(e) : want[e][s] > 0}),
                    po |-> 0, pc |-> 0, held |-> FALSE])

(* and a writer is never stuck while the other side reads *)
NoDeadlock ==
  Quiescent => \A e \in Side, s \in AllIds :
    (Open(e, s) /\ Open(1 - e, s) /\ s \in rdg[1 - e] /\ s \in Have(e)) => want[e][s] = 0

----------------------------------------------------------------------------
(* simulation: print the user operations of behaviours *)
Emit == (TLCGet("level") = DEPTH \/ ~ENABLED Next) => PrintT(<<"PROG", ToJson(prog)>>)
=============================================================================
