----------------------------- MODULE YamuxTrace -----------------------------
(* Evaluates a file of recorded endpoint traces against YamuxEnd.  One line  *)
(* of the file is one trace; a trace is accepted iff ACCEPTED is printed.    *)
EXTENDS YamuxEnd, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, e
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ e = NewEnd(Traces[t].cfg)
Next == /\ l <= Len(Traces[t].ev)
        /\ \E x \in Step(e, Traces[t].ev[l]) : e' = x
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"ACCEPTED", t>>)
Spec == Init /\ [][Next]_<<t, l, e>>
=============================================================================
