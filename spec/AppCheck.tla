--------------------------------- MODULE AppCheck ---------------------------------
(* Judges recorded histories of applications, see TraceCheck.tla. *)
EXTENDS AppProps, Json, IOUtils
P == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, o, bad
vars == <<tid, l, o, bad>>
Cfg == Traces[tid].cfg.m[1]
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {} /\ o = AInit(P, Traces[tid].cfg.m[1])
Next == /\ l < Len(Traces[tid].ev) /\ bad = {}
        /\ l' = l + 1
        /\ LET e == Traces[tid].ev[l + 1]
               n == AMon(P, o, Cfg, e)
               big == P \notin {"C17", "C18"} /\ Cardinality(n) > 1500
               b == ABad(P, o, Cfg, e, n) IN
           /\ o' = n /\ bad' = IF big THEN {"open"} ELSE b
           /\ big => PrintT(<<"OPEN", tid>>)
           /\ b # {} => PrintT(<<"VIOL", tid, 1, l + 1, b>>)
        /\ UNCHANGED tid
view == <<tid, l>>
Spec == Init /\ [][Next]_vars
=================================================================================
