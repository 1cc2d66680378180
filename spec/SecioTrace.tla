------------------------------ MODULE SecioTrace -----------------------------
(* Recorded handshakes and encrypted streams. *)
EXTENDS Secio, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, w
vars == <<t, i, w>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ w = Fresh(Traces[t].strict)
Next == /\ i <= Len(Traces[t].ev) /\ i' = i + 1 /\ UNCHANGED t
        /\ Can(w, Traces[t].ev[i])
        /\ w' = Do(w, Traces[t].ev[i])
        /\ (i' > Len(Traces[t].ev) => PrintT(<<"ACCEPTED", t>>))
Spec == Init /\ [][Next]_vars
=============================================================================
