------------------------------- MODULE ChanMC -------------------------------
(* All interleavings of senders, each with a bounded number of messages, and *)
(* one receiver that sleeps when there is nothing and is woken.              *)
EXTENDS Chan, TLC
CONSTANTS SENDERS, MSGS, BUF, CLOSER
VARIABLES c, ph, sent, got, rx, awake, arm, m0
vars == <<c, ph, sent, got, rx, awake, arm, m0>>
(* ph: phase of each sender; sent: its messages so far <<s, n, priority>>;    *)
(* rx: phase of the receiver; awake: tasks that will run; arm: a waker of    *)
(* the receiver is registered; m0: message in hand of each sender            *)
Prio == {"hi", "lo"}
Init == /\ c = Fresh(BUF, SENDERS) /\ ph = [s \in SENDERS |-> "idle"] /\ sent = [s \in SENDERS |-> <<>>]
        /\ got = <<>> /\ rx = <<"start", "">> /\ awake = SENDERS \cup {"rx"} /\ arm = FALSE
        /\ m0 = [s \in SENDERS |-> <<>>]

S(s, p) == ph' = [ph EXCEPT ![s] = p]
Begin(s) == /\ ph[s] = "idle" /\ s \in awake /\ Len(sent[s]) < MSGS
            /\ \E p \in Prio : m0' = [m0 EXCEPT ![s] = <<s, Len(sent[s]) + 1, p>>]
            /\ S(s, "ready") /\ UNCHANGED <<c, sent, got, rx, awake, arm>>
Ready(s) == /\ ph[s] = "ready" /\ s \in awake
            /\ IF s \in c.pk THEN awake' = awake \ {s} /\ UNCHANGED ph
               ELSE S(s, "announce") /\ UNCHANGED awake
            /\ UNCHANGED <<c, sent, got, rx, arm, m0>>
Ann(s) == /\ ph[s] = "announce"
          /\ IF c.open THEN c' = Announce(c) /\ S(s, IF Over(Announce(c)) THEN "park" ELSE "put")
             ELSE S(s, "gone") /\ UNCHANGED c
          /\ UNCHANGED <<sent, got, rx, awake, arm, m0>>
Pk(s) == ph[s] = "park" /\ c' = Park(c, s) /\ S(s, "put") /\ UNCHANGED <<sent, got, rx, awake, arm, m0>>
Pt(s) == /\ ph[s] = "put" /\ c' = Put(c, m0[s], m0[s][3]) /\ S(s, "wake")
         /\ sent' = [sent EXCEPT ![s] = Append(@, m0[s])] /\ UNCHANGED <<got, rx, awake, arm, m0>>
WakeRx == IF arm THEN awake' = awake \cup {"rx"} /\ arm' = FALSE ELSE UNCHANGED <<awake, arm>>
Wk(s) == /\ ph[s] = "wake" /\ S(s, "idle") /\ WakeRx /\ UNCHANGED <<c, sent, got, rx, m0>>
Quit(s) == /\ ph[s] \in {"idle", "gone"} /\ (Len(sent[s]) = MSGS \/ ph[s] = "gone")
           /\ c' = (IF c.live = {s} THEN Close(Leave(c, s)) ELSE Leave(c, s))
           /\ S(s, IF c.live = {s} THEN "last" ELSE "out") /\ UNCHANGED <<sent, got, rx, awake, arm, m0>>
Last(s) == ph[s] = "last" /\ S(s, "out") /\ WakeRx /\ UNCHANGED <<c, sent, got, rx, m0>>

R(p) == rx' = <<p, "">>
Rest == UNCHANGED <<ph, sent, m0>>
RxTry == /\ rx[1] \in {"start", "again"} /\ "rx" \in awake /\ Rest
         /\ IF c.hi # <<>> THEN /\ c' = TakeHi(c) /\ got' = Append(got, Head(c.hi)) /\ R("unpark")
                                /\ UNCHANGED <<awake, arm>>
            ELSE rx' = <<"low", rx[1]>> /\ UNCHANGED <<c, got, awake, arm>>
RxLow == /\ rx[1] = "low" /\ Rest
         /\ IF c.lo # <<>> THEN c' = TakeLo(c) /\ got' = Append(got, Head(c.lo)) /\ R("unpark")
            ELSE rx' = <<"state", rx[2]>> /\ UNCHANGED <<c, got>>
         /\ UNCHANGED <<awake, arm>>
RxState == /\ rx[1] = "state" /\ Rest
           /\ IF Ended(c) THEN R("end") /\ UNCHANGED <<awake, arm>>
              ELSE IF rx[2] = "start" THEN R("reg") /\ UNCHANGED <<awake, arm>>
              ELSE R("sleep") /\ UNCHANGED <<awake, arm>>
           /\ UNCHANGED <<c, got>>
RxReg == rx[1] = "reg" /\ R("again") /\ arm' = TRUE /\ Rest /\ UNCHANGED <<c, got, awake>>
(* a wake-up between registering and sleeping is kept: arm is then down *)
RxSleep == /\ rx[1] = "sleep" /\ R("start") /\ awake' = (IF arm THEN awake \ {"rx"} ELSE awake)
           /\ Rest /\ UNCHANGED <<c, got, arm>>
RxUnpark == /\ rx[1] = "unpark" /\ R("count") /\ c' = Unpark(c)
            /\ awake' = awake \cup {s \in SENDERS : s \in c.pk /\ s \notin c'.pk} /\ UNCHANGED <<ph, sent, m0, got, arm>>
RxCount == rx[1] = "count" /\ R("start") /\ c' = Count(c) /\ UNCHANGED <<ph, sent, m0, got, awake, arm>>
RxClose == /\ CLOSER /\ rx[1] = "start" /\ c.open /\ c' = Close(c) /\ R("closing") /\ UNCHANGED <<ph, sent, m0, got, awake, arm>>
RxClosing == /\ rx[1] = "closing" /\ c' = UnparkAll(c) /\ R("start") /\ awake' = awake \cup SENDERS \cup {"rx"}
             /\ UNCHANGED <<ph, sent, m0, got, arm>>
Done == rx[1] = "end" /\ (\A s \in SENDERS : ph[s] = "out") /\ UNCHANGED vars
Next == Done \/ RxLow \/ RxState \/ RxReg \/ RxSleep \/ RxUnpark \/ RxCount \/ RxTry \/ RxClose \/ RxClosing
        \/ \E s \in SENDERS : Begin(s) \/ Ready(s) \/ Ann(s) \/ Pk(s) \/ Pt(s) \/ Wk(s) \/ Quit(s) \/ Last(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Capacity == Len(c.hi) + Len(c.lo) <= BUF + Cardinality(SENDERS) /\ Len(c.hi) + Len(c.lo) <= c.cnt
Ordered == \A s \in SENDERS, p \in Prio :
             LET mine == SelectSeq(got, LAMBDA g : g[1] = s /\ g[3] = p)
                 out == SelectSeq(sent[s], LAMBDA m : m[3] = p)
                 wait == SelectSeq(IF p = "hi" THEN c.hi ELSE c.lo, LAMBDA m : m[1] = s) IN
             mine \o wait \in {out, out \o <<m0[s]>>}
(* nothing sent is lost, and the end is seen only after everything *)
AtEnd == rx[1] = "end" => /\ c.hi = <<>> /\ c.lo = <<>>
                       /\ \A s \in SENDERS : \A k \in 1..Len(sent[s]) : \E j \in 1..Len(got) : got[j] = sent[s][k]
Finishes == <>(rx[1] = "end")
=============================================================================
