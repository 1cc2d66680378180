----------------------------- MODULE AppsTrace -----------------------------
(* Recorded runs of the application protocols on real services. *)
EXTENDS Apps, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, w
vars == <<t, i, w>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ w = Fresh(Traces[t].kind, Traces[t].nodes, Traces[t].tab)
Next == /\ i <= Len(Traces[t].ev) /\ i' = i + 1 /\ UNCHANGED t
        /\ Can(w, Traces[t].ev[i])
        /\ w' = Do(w, Traces[t].ev[i])
        /\ (i' > Len(Traces[t].ev) => PrintT(<<"ACCEPTED", t>>))
Spec == Init /\ [][Next]_vars
=============================================================================
