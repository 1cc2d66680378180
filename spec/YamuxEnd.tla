------------------------------ MODULE YamuxEnd ------------------------------
(***************************************************************************)
(* One endpoint of a yamux session, seen at its two interfaces: the        *)
(* application (open, accept, read, write, shutdown, drop, close) and the   *)
(* transport (frames received and transmitted, end, failure).              *)
(*                                                                         *)
(* Step(e, ev) is the set of endpoint states that event ev may lead to      *)
(* from e; the empty set means that the event is not allowed.  The same     *)
(* operator defines the actions of the model (Yamux.tla) and judges         *)
(* recorded executions (YamuxTrace.tla).                                    *)
(*                                                                         *)
(* What the specification leaves open on purpose: when credit is returned   *)
(* (any time, any amount up to what was consumed), how bytes are cut into   *)
(* frames, how frames of different streams interleave, and when a frame     *)
(* that arrived is processed.  What may still be undone when nothing is     *)
(* runnable any more is fixed by QuietOK.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SYN(f) == f.fl % 2 = 1
ACK(f) == (f.fl \div 2) % 2 = 1
FIN(f) == (f.fl \div 4) % 2 = 1
RST(f) == (f.fl \div 8) % 2 = 1

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Cut(s, n) == SubSeq(s, n + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}

(* lengths of the frames not yet taken by the reader *)
RECURSIVE Eat(_, _)
Eat(q, n) == IF n = 0 \/ q = <<>> THEN q
             ELSE IF Head(q) <= n THEN Eat(Tail(q), n - Head(q))
             ELSE <<Head(q) - n>> \o Tail(q)
RECURSIVE SumUpTo(_, _)
SumUpTo(q, k) == IF k = 0 \/ q = <<>> THEN 0 ELSE Head(q) + SumUpTo(Tail(q), k - 1)

(* frames that a stream is guaranteed to hold itself once nothing is runnable *)
HELD == 8
(* an unanswered ping older than this ends the session (milliseconds) *)
PINGTIMEOUT == 30000
(* classes of numbers too large for TLC: above 2e9, and exactly 2^32-1 *)
HUGE == 2000000000

NewStream(dir, h, w) ==
  [ dir |-> dir,      \* "out": opened here, "in": opened by the peer
    h   |-> h,        \* "syn" undecided, "pend" accepted but not yet given to the
                      \* application, "app", "gone" dropped, "ref" refused, "pre" announced
                      \* to the peer before the opener has it
    oq  |-> <<>>,     \* bytes accepted from the application, not yet transmitted
    sw  |-> w,        \* credit for transmitting
    iq  |-> <<>>,     \* bytes received, not yet read
    rw  |-> w,        \* credit granted to the peer and not used by it
    gq  |-> TRUE,     \* no consumption since everything was last settled
    first |-> TRUE,   \* nothing transmitted yet
    lc  |-> FALSE,    \* the application closed it
    finTx |-> FALSE, rstTx |-> FALSE,
    rfin |-> FALSE, rrst |-> FALSE,
    bad |-> FALSE,    \* after iq comes a violation by the peer
    seen |-> FALSE,   \* a read reported the end or an error
    q   |-> <<>>,     \* frame lengths of iq
    safe |-> 0,       \* bytes that stay readable even if the session ends
    lo  |-> 0, hi |-> 0,
    need |-> 0,       \* bytes to be written before the credit received last is counted,
                      \* which would overflow otherwise
    freed |-> FALSE,
    early |-> TRUE ]  \* asked for before a go-away was transmitted

NewEnd(c) ==
  [ w |-> c.w, max |-> c.max, backlog |-> c.backlog, ka |-> c.ka, wt |-> c.wt, wide |-> c.wide,
    own |-> IF c.role = "client" THEN 1 ELSE 0,   \* parity of the ids of own streams
    S |-> [x \in {} |-> 0],
    la |-> -1,         \* code of the transmitted go-away, -1: none
    gaAt |-> 0,
    ra |-> FALSE,      \* go-away received
    closeReq |-> FALSE, openReq |-> 0,
    wild |-> {},       \* ids about which the peer spoke ambiguously: no longer followed
    pmay |-> FALSE,    \* the peer may have violated the protocol
    fin |-> FALSE,     \* nothing was runnable since the peer's go-away or the end
    perr |-> FALSE,    \* the peer violated the protocol and this must be answered
    eof |-> FALSE, ioerr |-> FALSE, malf |-> FALSE,
    ended |-> FALSE,
    pq |-> <<>>,       \* pings to answer
    now |-> 0, pings |-> {}, lastPing |-> 0, nPing |-> 0 ]

Ids(e) == DOMAIN e.S
With(e, s, r) == [e EXCEPT !.S = [x \in (DOMAIN e.S) \cup {s} |-> IF x = s THEN r ELSE e.S[x]]]

Wild(e, s) == [e EXCEPT !.S = [x \in (DOMAIN e.S) \ {s} |-> e.S[x]], !.wild = @ \cup {s}, !.pmay = TRUE]

(* streams that certainly / possibly occupy a slot *)
Live(e) == {s \in Ids(e) : e.S[s].h \in {"pend", "app", "pre"} /\ ~e.S[s].lc /\ ~e.S[s].rrst /\ ~e.S[s].bad}
Occupied(e) == {s \in Ids(e) : e.S[s].h # "ref" /\ ~e.S[s].freed} \cup e.wild

Track(e) ==
  IF \A s \in Ids(e) : e.S[s].h # "syn" THEN e
  ELSE LET l == Cardinality(Live(e)) IN
       LET o == Cardinality(Occupied(e)) - 1 + e.openReq IN
       [e EXCEPT !.S = [s \in Ids(e) |->
           IF e.S[s].h = "syn" THEN [e.S[s] EXCEPT !.lo = Min(@, l), !.hi = Max(@, o)]
           ELSE e.S[s]]]

----------------------------------------------------------------------------
(* application side *)

(* an open through a control is asked for first; the stream may be announced *)
(* to the peer before the caller has it                                      *)
OpenReqEv(e) == {[e EXCEPT !.openReq = @ + 1]}

FreshId(e, s) == s % 2 = e.own /\ s \notin Ids(e)
PreOpen(e, s) == FreshId(e, s) /\ e.openReq > 0 /\ ~e.fin
AddPre(e, s) == [With(e, s, NewStream("out", "pre", e.w)) EXCEPT !.openReq = @ - 1]

OpenEv(e, s, ctl) ==
  IF ctl /\ s \in Ids(e) /\ e.S[s].h = "pre" THEN {[e EXCEPT !.S[s].h = "app"]}
  ELSE IF FreshId(e, s) /\ IF ctl THEN e.openReq > 0 /\ ~e.fin ELSE ~e.ended /\ ~e.fin
  THEN {[With(e, s, NewStream("out", "app", e.w)) EXCEPT !.openReq = IF ctl THEN @ - 1 ELSE @]}
  ELSE {}

OpenErrEv(e, ctl) ==
  IF \/ e.ended \/ e.ra \/ e.eof \/ e.ioerr \/ e.malf
     \/ e.wild # {}                                             \* an id the peer has taken
  THEN {[e EXCEPT !.openReq = IF ctl THEN @ - 1 ELSE @]} ELSE {}

LimitAllowsAccept(e, s) ==
  /\ e.la = -1 \/ e.S[s].early
  /\ e.backlog > 0
  /\ e.S[s].lo < e.max
  /\ Cardinality({x \in Live(e) : e.S[x].dir = "in"} \cup {s}) <= e.max

AcceptEv(e, s) ==
  IF s \in Ids(e) /\ ~e.ended
     /\ \/ e.S[s].h = "pend"
        \/ e.S[s].h = "syn" /\ LimitAllowsAccept(e, s)
  THEN {[e EXCEPT !.S[s].h = "app"]} ELSE {}

InApp(e, s) == s \in Ids(e) /\ e.S[s].h = "app"

(* n bytes d accepted for transmission *)
WriteEv(e, s, n, d) ==
  IF /\ InApp(e, s) /\ ~e.S[s].lc /\ n >= 1 /\ n = Len(d)
     /\ ~e.ended
     /\ n <= e.S[s].sw - Len(e.S[s].oq)
  THEN {[e EXCEPT !.S[s].oq = @ \o d, !.S[s].need = Max(0, @ - n)]} ELSE {}

WriteErrEv(e, s) ==
  IF InApp(e, s) /\ (e.ended \/ e.S[s].lc \/ e.S[s].rfin \/ e.S[s].rrst \/ e.S[s].bad)
  THEN {e} ELSE {}

ReadEv(e, s, d) ==
  IF ~InApp(e, s) THEN {}
  ELSE LET r == e.S[s] IN
    IF d = <<>>
    THEN IF r.iq = <<>> /\ r.rfin THEN {[e EXCEPT !.S[s].seen = TRUE]} ELSE {}
    ELSE IF IsPrefix(d, r.iq) /\ ~r.seen
         THEN {[e EXCEPT !.S[s] = [r EXCEPT !.iq = Cut(@, Len(d)), !.q = Eat(@, Len(d)),
                                            !.safe = Max(0, @ - Len(d)), !.gq = FALSE]]}
         ELSE {}

ReadErrEv(e, s, k) ==
  IF ~InApp(e, s) THEN {}
  ELSE LET r == e.S[s]
           e2 == [e EXCEPT !.S[s].seen = TRUE] IN
    CASE k = "InvalidData" ->
           IF r.bad /\ r.iq = <<>> /\ ~r.seen
           THEN {[e2 EXCEPT !.perr = TRUE, !.S[s].lc = TRUE]} ELSE {}
      [] OTHER ->
           IF \/ r.rfin /\ r.iq = <<>>
              \/ r.rrst
              \/ r.lc
              \/ e.ended /\ r.safe = 0
           THEN {e2} ELSE {}

ShutEv(e, s, ok) ==
  IF InApp(e, s) /\ (ok \/ e.ended) THEN {[e EXCEPT !.S[s].lc = TRUE]} ELSE {}

DropEv(e, s) ==
  IF InApp(e, s) THEN {[e EXCEPT !.S[s].h = "gone", !.S[s].iq = <<>>, !.S[s].q = <<>>]} ELSE {}

CloseEv(e) == {[e EXCEPT !.closeReq = TRUE]}
ClosedEv(e) == IF e.closeReq THEN {e} ELSE {}
DropSessEv(e) == {[e EXCEPT !.ended = TRUE]}

EndEv(e, k) ==
  IF e.ended THEN {}
  ELSE IF CASE k = "None" -> e.eof \/ (e.ra /\ (e.la # -1 \/ ~e.wide))   \* answering needs room
                              \/ (e.la # -1 /\ e.now - e.gaAt >= e.wt)
            [] k = "TimedOut" -> e.ka > 0 /\ \E p \in e.pings : e.now - p.at > PINGTIMEOUT
            [] OTHER -> e.eof \/ e.ioerr \/ e.malf
       THEN {[e EXCEPT !.ended = TRUE]} ELSE {}

----------------------------------------------------------------------------
(* frames received *)

RxData(r, f, w) ==     \* set of possible successor records; f carries Len(f.d) bytes
  IF r.bad \/ r.rfin \/ r.rrst \/ r.h \in {"gone", "ref"} THEN {r}
  ELSE LET n == Len(f.d)
           good == [r EXCEPT !.iq = @ \o f.d, !.q = Append(@, n), !.rw = @ - n]
           over == [r EXCEPT !.bad = TRUE] IN
       IF n = 0 THEN {[r EXCEPT !.q = Append(@, 0)]}
       ELSE IF n <= r.rw THEN {good}
       ELSE IF n > w \/ (r.gq /\ r.iq = <<>>) THEN {over}   \* credit counts when the reader gets here
       ELSE {good, over}

RxUpdate(r, f) ==
  IF r.bad \/ r.rfin \/ r.rrst \/ r.h \in {"gone", "ref"} THEN {r}
  ELSE LET more == [r EXCEPT !.sw = IF f.n >= HUGE \div 4 \/ @ >= HUGE \div 4 THEN HUGE ELSE @ + f.n, !.q = Append(@, 0)]
           over == [r EXCEPT !.bad = TRUE] IN
       IF f.n < HUGE /\ r.sw < HUGE \div 4 THEN {more}
       ELSE IF f.n > HUGE /\ r.sw < HUGE \div 4
            THEN {over, [r EXCEPT !.sw = HUGE, !.q = Append(@, 0), !.need = r.sw - Len(r.oq)]}
            ELSE {more, over}     \* beyond what is tracked exactly

RxFlags(r, f) ==
  IF r.bad \/ r.h \in {"gone", "ref"} THEN r
  ELSE IF RST(f) THEN [r EXCEPT !.rrst = TRUE]
  ELSE IF FIN(f) /\ ~r.rfin THEN [r EXCEPT !.rfin = TRUE]
  ELSE r

RxStream(e, s, f) ==
  LET into(x) == LET r0 == x.S[s]
                     rs == IF f.t = "data" THEN RxData(r0, f, x.w) ELSE RxUpdate(r0, f) IN
                 { [x EXCEPT !.S[s] = RxFlags(r, f)] : r \in rs } IN
  IF s \in Ids(e) THEN into(e)
  ELSE IF PreOpen(e, s) THEN {e} \cup into(AddPre(e, s))   \* the peer guessed an id being opened
  ELSE {e}

(* A request for a new stream.  Asking again for an id in use is a violation *)
(* that must be answered, except where the request may be refused anyway.    *)
RxSyn(e, s, f) ==
  LET fresh == [NewStream("in", "syn", e.w) EXCEPT !.early = e.la = -1,
                  !.lo = Cardinality(Live(e)), !.hi = Cardinality(Occupied(e)) + e.openReq] IN
  IF s \in Live(e) /\ Cardinality(Occupied(e)) + e.openReq < e.max /\ e.la = -1 /\ e.backlog > 0
  THEN {[e EXCEPT !.perr = TRUE]}
  ELSE IF s \in Ids(e) \/ s % 2 = e.own THEN {Wild(e, s)}
  ELSE RxStream(With(e, s, fresh), s, f)

RxEv(e, f) ==
  IF e.ended THEN {}
  ELSE IF e.malf THEN {e}
  ELSE CASE f.t = "bad" -> {[e EXCEPT !.malf = TRUE]}
    [] f.t = "ping" ->
         IF SYN(f) THEN {[e EXCEPT !.pq = Append(@, f.n)]}
         ELSE IF ACK(f) THEN {[e EXCEPT !.pings = {p \in @ : p.id > f.n}]}
         ELSE {e}
    [] f.t = "ga" -> {[e EXCEPT !.ra = TRUE]}
    [] OTHER -> IF e.ra THEN {e}
                ELSE IF SYN(f) THEN RxSyn(e, f.s, f) ELSE RxStream(e, f.s, f)

----------------------------------------------------------------------------
(* frames transmitted *)

TxStream(e0, s, f) ==
  LET e == IF s \notin Ids(e0) /\ SYN(f) /\ PreOpen(e0, s) THEN AddPre(e0, s) ELSE e0 IN
  IF e.la # -1 THEN {e}          \* after go-away the peer ignores streams
  ELSE IF s \notin Ids(e) THEN {}
  ELSE LET r == e.S[s]
           n == IF f.t = "data" THEN Len(f.d) ELSE 0
           credit == IF f.t = "wu" THEN f.n ELSE 0
           oq2 == Cut(r.oq, n) IN
    IF r.h = "syn" /\ RST(f)
    THEN \* refusal
         IF r.hi >= e.max \/ e.backlog = 0 \/ e.la # -1 THEN {[e EXCEPT !.S[s].h = "ref"]} ELSE {}
    ELSE IF /\ r.h # "ref"
            /\ r.h = "syn" => LimitAllowsAccept(e, s)
            /\ SYN(f) <=> (r.first /\ r.dir = "out")
            /\ (r.dir = "in") => (ACK(f) <=> r.first)
            /\ n > 0 => ~r.finTx /\ IsPrefix(f.d, r.oq) /\ n <= r.sw
            /\ credit <= e.w - Len(r.iq) - r.rw \/ r.h = "gone" \/ r.rfin \/ r.rrst \/ r.bad
            /\ credit + r.rw <= e.w
            /\ FIN(f) => oq2 = <<>> /\ (r.lc \/ r.rfin \/ r.rrst \/ r.bad)
            /\ RST(f) => r.h = "gone"
         THEN {[e EXCEPT !.S[s] = [r EXCEPT !.oq = oq2, !.sw = @ - n, !.rw = @ + credit,
                                      !.first = FALSE,
                                      !.h = IF @ = "syn" THEN "pend" ELSE @,
                                      !.finTx = @ \/ FIN(f), !.rstTx = @ \/ RST(f)]]}
         ELSE {}

TxEv(e, f) ==
  IF e.ended THEN {}
  ELSE CASE f.t = "ping" ->
         IF ACK(f) THEN IF e.pq # <<>> /\ Head(e.pq) = f.n THEN {[e EXCEPT !.pq = Tail(@)]} ELSE {}
         ELSE IF SYN(f) /\ e.ka > 0 /\ e.la = -1 /\ f.n = e.nPing + 1
              THEN {[e EXCEPT !.pings = @ \cup {[id |-> f.n, at |-> e.now]}, !.lastPing = e.now, !.nPing = f.n]}
              ELSE {}
    [] f.t = "ga" ->
         IF (e.la = -1 \/ e.closeReq \/ e.perr \/ e.pmay) /\ CASE f.n = 0 -> e.closeReq \/ e.ra
                           [] f.n = 1 -> e.perr \/ e.pmay
                           [] OTHER -> FALSE
         THEN {[e EXCEPT !.la = f.n, !.gaAt = e.now]} ELSE {}
    [] f.t = "bad" -> {}
    [] OTHER -> TxStream(e, f.s, f)

----------------------------------------------------------------------------
(* Nothing is runnable: what may still be pending.  pr, pw: streams with a  *)
(* pending read / write; po, pc: pending opens / closes; held: the          *)
(* transport takes no output for now.                                       *)

QuietStream(e, s, q) ==
  LET r == e.S[s]
      reading == s \in Range(q.pr)
      writing == s \in Range(q.pw) IN
  /\ reading => r.iq = <<>> /\ ~r.rfin /\ ~r.rrst /\ ~r.bad /\ r.need = 0
  /\ writing => ~r.seen /\ ~r.lc
  /\ writing /\ reading => r.sw = Len(r.oq)
  /\ r.h \in {"syn", "pend", "pre"} => q.held /\ (e.closeReq \/ e.perr \/ e.pmay \/ e.ra)
  /\ (e.la = -1 /\ ~q.held) =>
       /\ r.h = "app" => /\ r.oq = <<>> /\ ~r.first
                         /\ r.lc => r.finTx \/ r.rrst \/ r.bad
       /\ r.h = "gone" => r.rstTx \/ r.finTx \/ r.rrst
       /\ (reading /\ ~r.lc) => r.rw > 0

QuietOK(e, q) ==
  IF e.ended
  THEN /\ q.pr = <<>> /\ q.po = 0 /\ q.pc = 0
       /\ \A s \in Range(q.pw) \cap Ids(e) : ~e.S[s].seen
  ELSE /\ ~e.eof /\ ~e.ioerr /\ ~e.malf
       /\ q.po = 0 /\ q.pc = 0
       /\ ~(e.la # -1 /\ (e.ra \/ e.now - e.gaAt >= e.wt))
       /\ ~q.held => /\ e.perr \/ e.closeReq \/ e.ra => e.la # -1
                     /\ e.la = -1 => e.pq = <<>>
       /\ (e.la = -1 /\ e.ka > 0) =>
            /\ ~q.held => e.now - e.lastPing <= e.ka
            /\ \A p \in e.pings : e.now - p.at <= PINGTIMEOUT + 2 * e.ka
       /\ e.la = -1 => \A s \in Ids(e) : QuietStream(e, s, q)

QuietEv(e, q) ==
  IF ~QuietOK(e, q) THEN {}
  ELSE {[e EXCEPT !.fin = e.ra \/ e.ended, !.S = [s \in Ids(e) |->
          LET r == e.S[s]
              q2 == IF s \in Range(q.pr) THEN <<>> ELSE r.q IN
          [r EXCEPT !.q = q2, !.gq = ~q.held,
                    !.safe = IF e.ended THEN @ ELSE SumUpTo(q2, HELD),
                    !.freed = @ \/ r.h = "gone" \/ (r.seen /\ (IF r.rfin THEN r.lc ELSE r.rrst))]]]}

----------------------------------------------------------------------------
(* events about an id that is no longer followed *)
WildEv(e, ev) ==
  CASE ev.e \in {"rx", "tx"} -> e.wild # {} /\ ev.f.t \in {"data", "wu"} /\ ev.f.s \in e.wild
    [] ev.e \in {"open", "accept", "wr", "wrerr", "rd", "rderr", "shut", "drop"} -> ev.s \in e.wild
    [] OTHER -> FALSE

StepRaw(e, ev) ==
  IF WildEv(e, ev)
  THEN IF ev.e = "open" /\ ev.ctl THEN {e, [e EXCEPT !.openReq = Max(0, @ - 1)]}
       ELSE IF ev.e = "rx" /\ e.ended THEN {} ELSE {e}
  ELSE
  CASE ev.e = "open" -> OpenEv(e, ev.s, ev.ctl)
    [] ev.e = "openreq" -> OpenReqEv(e)
    [] ev.e = "openerr" -> OpenErrEv(e, ev.ctl)
    [] ev.e = "accept" -> AcceptEv(e, ev.s)
    [] ev.e = "wr" -> WriteEv(e, ev.s, ev.n, ev.d)
    [] ev.e = "wrerr" -> WriteErrEv(e, ev.s)
    [] ev.e = "rd" -> ReadEv(e, ev.s, ev.d)
    [] ev.e = "rderr" -> ReadErrEv(e, ev.s, ev.k)
    [] ev.e = "shut" -> ShutEv(e, ev.s, ev.ok)
    [] ev.e = "drop" -> DropEv(e, ev.s)
    [] ev.e = "close" -> CloseEv(e)
    [] ev.e = "closed" -> ClosedEv(e)
    [] ev.e = "dropsess" -> DropSessEv(e)
    [] ev.e = "end" -> EndEv(e, ev.k)
    [] ev.e = "rx" -> RxEv(e, ev.f)
    [] ev.e = "tx" -> TxEv(e, ev.f)
    [] ev.e = "rxeof" -> {[e EXCEPT !.eof = TRUE]}
    [] ev.e = "rxerr" -> {[e EXCEPT !.ioerr = TRUE]}
    [] ev.e = "txerr" -> {[e EXCEPT !.ioerr = TRUE]}
    [] ev.e = "adv" -> {[e EXCEPT !.now = @ + ev.ms]}
    [] ev.e = "quiet" -> QuietEv(e, ev)
    [] OTHER -> {}        \* panic, livelock: never allowed

Step(e, ev) == {Track(x) : x \in StepRaw(e, ev)}
=============================================================================
