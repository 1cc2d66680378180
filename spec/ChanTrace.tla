------------------------------ MODULE ChanTrace ------------------------------
(* Recorded calls and returns of concurrent tasks on one queue.  Between the  *)
(* call and the return of an operation its steps happen one by one, mixed     *)
(* with those of the other tasks in any order.                                *)
EXTENDS Chan, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, c, op, bh, bl, fin
vars == <<t, i, c, op, bh, bl, fin>>
(* op: running operation of each task as [k, s, m, p, ph]; bh, bl: messages   *)
(* kept back in the buffer of each sender; fin: the receiver is gone          *)
NOOP == [k |-> "none"]
Ev == Traces[t].ev[i]
Upd(th, f) == op' = [op EXCEPT ![th] = f]
Set(th, ph) == Upd(th, [op[th] EXCEPT !.ph = ph])
Sends == {"send", "wait", "btry"}
Recvs == {"recv", "try", "poll"}

(* the message a sending operation is about to send *)
Msg(o) == IF o.k # "btry" THEN <<o.m, o.p>>
          ELSE IF bh[o.s] # <<>> THEN <<Head(bh[o.s]), "hi">> ELSE <<Head(bl[o.s]), "lo">>
Waiting(o) == IF o.k = "btry" THEN bh[o.s] # <<>> \/ bl[o.s] # <<>> ELSE TRUE

(* one step of the operation running in task th *)
Hidden(th) ==
  LET o == op[th] IN
  \/ /\ o.k \in Sends \cup {"ready"} /\ o.ph = "c0"
     /\ \/ o.s \in c.pk /\ o.k # "wait" /\ Waiting(o) /\ Set(th, "full") /\ UNCHANGED <<c, bh, bl>>
        \/ ~c.open /\ Waiting(o) /\ Set(th, "disc")
           /\ UNCHANGED c
           /\ bh' = (IF o.k = "btry" THEN [bh EXCEPT ![o.s] = <<>>] ELSE bh)
           /\ bl' = (IF o.k = "btry" THEN [bl EXCEPT ![o.s] = <<>>] ELSE bl)
        \/ o.k = "ready" /\ o.s \notin c.pk /\ c.open /\ Set(th, "done") /\ UNCHANGED <<c, bh, bl>>
        \/ /\ o.k # "ready" /\ o.s \notin c.pk /\ c.open /\ Waiting(o)
           /\ c' = Announce(c)
           /\ Upd(th, [o EXCEPT !.ph = IF Over(Announce(c)) THEN "park" ELSE "put", !.m = Msg(o)[1], !.p = Msg(o)[2]])
           /\ IF o.k = "btry" THEN IF bh[o.s] # <<>> THEN bh' = [bh EXCEPT ![o.s] = Tail(@)] /\ UNCHANGED bl
                                   ELSE bl' = [bl EXCEPT ![o.s] = Tail(@)] /\ UNCHANGED bh
              ELSE UNCHANGED <<bh, bl>>
        \/ ~Waiting(o) /\ Set(th, "done") /\ UNCHANGED <<c, bh, bl>>
  \/ o.k \in Sends /\ o.ph = "park" /\ c' = Park(c, o.s) /\ Set(th, "put") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k \in Sends /\ o.ph = "put" /\ c' = Put(c, o.m, o.p)
     /\ Set(th, IF o.k = "btry" THEN "c0" ELSE "done") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k \in Recvs /\ UNCHANGED <<bh, bl>>
     /\ \/ /\ o.ph = "c0" /\ c.hi # <<>> /\ c' = TakeHi(c) /\ Upd(th, [o EXCEPT !.ph = "got", !.m = Head(c.hi), !.p = "hi"])
        \/ /\ o.ph = "c0" /\ c.hi = <<>> /\ Set(th, "h0") /\ UNCHANGED c
        \/ /\ o.ph = "h0" /\ c.lo # <<>> /\ c' = TakeLo(c) /\ Upd(th, [o EXCEPT !.ph = "got", !.m = Head(c.lo), !.p = "lo"])
        \/ /\ o.ph = "h0" /\ c.lo = <<>> /\ Set(th, "l0") /\ UNCHANGED c
        \/ /\ o.ph = "l0" /\ Set(th, IF Ended(c) THEN "end" ELSE "empty") /\ UNCHANGED c
        \/ /\ o.ph = "empty" /\ o.k # "try" /\ Set(th, "c0") /\ UNCHANGED c
        \/ /\ o.ph = "got" /\ c' = Unpark(c) /\ Set(th, "unparked")
        \/ /\ o.ph = "got" /\ c' = Count(c) /\ Set(th, "counted")
        \/ /\ o.ph = "unparked" /\ c' = Count(c) /\ Set(th, "done")
        \/ /\ o.ph = "counted" /\ c' = Unpark(c) /\ Set(th, "done")
  \/ /\ o.k \in {"close", "rdrop"} /\ o.ph = "c0" /\ c' = Close(c) /\ Set(th, "closed") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k \in {"close", "rdrop"} /\ o.ph = "closed" /\ c' = UnparkAll(c) /\ Set(th, IF o.k = "close" THEN "done" ELSE "drain") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.ph = "drain" /\ UNCHANGED <<bh, bl>>
     /\ \/ c.hi # <<>> /\ c' = Count(UnparkAll(TakeHi(c))) /\ UNCHANGED op
        \/ c.hi = <<>> /\ c.lo # <<>> /\ c' = Count(UnparkAll(TakeLo(c))) /\ UNCHANGED op
        \/ Ended(c) /\ Set(th, "done") /\ UNCHANGED c
  \/ /\ o.k = "cclose" /\ o.ph = "c0" /\ c' = Close(c) /\ Set(th, "done") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k = "drop" /\ o.ph = "c0" /\ c' = Leave(c, o.s) /\ Set(th, IF c.live = {o.s} THEN "last" ELSE "done") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k = "drop" /\ o.ph = "last" /\ c' = Close(c) /\ Set(th, "done") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k = "clone" /\ o.ph = "c0" /\ c' = [c EXCEPT !.live = @ \cup {o.m}] /\ Set(th, "done") /\ UNCHANGED <<bh, bl>>
  \/ /\ o.k = "len" /\ o.ph = "c0" /\ Upd(th, [o EXCEPT !.ph = "done", !.m = IF c.open THEN c.cnt ELSE 0 - 1]) /\ UNCHANGED <<c, bh, bl>>
  \/ /\ o.k = "isclosed" /\ o.ph = "c0" /\ Upd(th, [o EXCEPT !.ph = "done", !.m = IF c.open THEN 0 ELSE 1]) /\ UNCHANGED <<c, bh, bl>>

Fits(o, ev) ==
  CASE ev.r = "ok" -> o.ph = "done" /\ o.k \notin Recvs
    [] ev.r = "full" -> o.ph = "full"
    [] ev.r = "disc" -> o.ph = "disc"
    [] ev.r = "msg" -> o.ph = "done" /\ o.k \in Recvs /\ o.m = ev.m /\ o.p = ev.p
    [] ev.r = "empty" -> o.ph = "empty" /\ o.k \in {"try", "poll"}
    [] ev.r = "end" -> o.ph = "end"
    [] ev.r = "num" -> o.ph = "done" /\ o.m = ev.m
    [] OTHER -> FALSE

Step == /\ i <= Len(Traces[t].ev) /\ i' = i + 1 /\ UNCHANGED t
        /\ ("SHOW" \in DOMAIN IOEnv => PrintT(<<"AT", i>>))
        /\ CASE Ev.e = "call" ->
                  /\ Ev.k # "none" /\ op[Ev.th + 1] = NOOP
                  /\ Upd(Ev.th + 1, [k |-> Ev.k, s |-> Ev.s, m |-> Ev.m, p |-> Ev.p, ph |-> "c0"])
                  /\ UNCHANGED <<c, bh, bl, fin>>
             [] Ev.e = "bpush" ->
                  /\ IF Ev.p = "hi" THEN bh' = [bh EXCEPT ![Ev.s] = Append(@, Ev.m)] /\ UNCHANGED bl
                     ELSE bl' = [bl EXCEPT ![Ev.s] = Append(@, Ev.m)] /\ UNCHANGED bh
                  /\ UNCHANGED <<c, op, fin>>
             [] Ev.e = "ret" ->
                  /\ op[Ev.th + 1] # NOOP /\ Fits(op[Ev.th + 1], Ev)
                  /\ Upd(Ev.th + 1, NOOP)
                  /\ fin' = (fin \/ op[Ev.th + 1].k = "rdrop" \/ Ev.r = "end")
                  /\ UNCHANGED <<c, bh, bl>>
             [] Ev.e = "quiet" ->      \* rxw, txw: tasks that wait and were not woken
                  /\ \A th \in DOMAIN op : op[th] = NOOP
                  /\ Ev.rxw => c.hi = <<>> /\ c.lo = <<>> /\ ~Ended(c)
                  /\ \A k \in 1..Len(Ev.txw) : Ev.txw[k] \in c.pk
                  /\ UNCHANGED <<c, op, bh, bl, fin>>
             [] Ev.e = "fin" ->        \* everything is gone: no message is left behind
                  Ev.left = 0 /\ UNCHANGED <<c, op, bh, bl, fin>>
             [] OTHER -> FALSE
        /\ (i' > Len(Traces[t].ev) => PrintT(<<"ACCEPTED", t>>))

Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ c = Fresh(Traces[t].buf, {0}) /\ fin = FALSE
        /\ op = [th \in 1..Traces[t].threads |-> NOOP]
        /\ bh = [s \in 0..20 |-> <<>>] /\ bl = [s \in 0..20 |-> <<>>]
Next == Step \/ (UNCHANGED <<t, i, fin>> /\ i <= Len(Traces[t].ev) /\ \E th \in DOMAIN op : op[th] # NOOP /\ Hidden(th))
Spec == Init /\ [][Next]_vars
=============================================================================
