-------------------------------- MODULE MultiCheck --------------------------------
(* Judges recorded histories of the multi-consumer listener, see TraceCheck.tla. *)
EXTENDS Multi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, o, bad
vars == <<tid, l, o, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {} /\ o = {M0(Traces[tid].cfg.m[1])}
Next == /\ l < Len(Traces[tid].ev) /\ bad = {}
        /\ l' = l + 1
        /\ LET n == MStep(o, Traces[tid].ev[l + 1]) IN
           /\ o' = n /\ bad' = IF n = {} THEN {"unexplained"} ELSE {}
           /\ n = {} => PrintT(<<"VIOL", tid, 1, l + 1, {"unexplained"}>>)
        /\ UNCHANGED tid
view == <<tid, l>>
Spec == Init /\ [][Next]_vars
=================================================================================
