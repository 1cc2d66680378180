------------------------------ MODULE TentTrace ------------------------------
(* Recorded runs of real services over a simulated network. *)
EXTENDS Tent, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, w
vars == <<t, i, w>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ w = Fresh(Traces[t].nodes)
Next == /\ i <= Len(Traces[t].ev) /\ i' = i + 1 /\ UNCHANGED t
        /\ (("SHOW" \in DOMAIN IOEnv /\ Traces[t].ev[i].e = "quiet") => PrintT(<<"QUIET", i, QuietParts(w, Traces[t].ev[i])>>))
        /\ Can(w, Traces[t].ev[i])
        /\ w' = Do(w, Traces[t].ev[i])
        /\ (i' > Len(Traces[t].ev) => PrintT(<<"ACCEPTED", t>>))
Spec == Init /\ [][Next]_vars
=============================================================================
