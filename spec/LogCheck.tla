--------------------------------- MODULE LogCheck ---------------------------------
(* Judges recorded histories of the logging listener, see TraceCheck.tla. *)
EXTENDS Log, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, o, bad
vars == <<tid, l, o, bad>>
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {} /\ o = G0
Next == /\ l < Len(Traces[tid].ev) /\ bad = {}
        /\ l' = l + 1
        /\ LET n == GNext(o, Traces[tid].cfg.m[1], Traces[tid].ev[l + 1]) IN
           /\ o' = n /\ bad' = n.bad
           /\ n.bad # {} => PrintT(<<"VIOL", tid, 1, l + 1, n.bad>>)
        /\ UNCHANGED tid
view == <<tid, l>>
Spec == Init /\ [][Next]_vars
=================================================================================
