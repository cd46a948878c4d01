------------------------------- MODULE TraceCheck -------------------------------
(* Judges recorded histories by one property of Props.tla. All histories of the    *)
(* file are explored in one TLC run: each (history, machine) is an initial state    *)
(* and each event one transition.                                                   *)
EXTENDS Props, Json, IOUtils
P == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, mi, l, o, bad
vars == <<tid, mi, l, o, bad>>
Cfg == Traces[tid].cfg.m[mi]
Init == /\ tid \in DOMAIN Traces
        /\ mi \in DOMAIN Traces[tid].cfg.m
        /\ l = 0 /\ bad = {}
        /\ o = MonInit(P, Traces[tid].cfg.m[mi], Traces[tid].ev)
Next == /\ l < Len(Traces[tid].ev) /\ bad = {}
        /\ l' = l + 1
        /\ LET e == Traces[tid].ev[l + 1]
               mine == e.k \in {"quiet", "abort"} \/ e.m = Cfg.id IN
           IF ~mine THEN UNCHANGED <<o, bad>>
           ELSE LET n == MonStep(P, o, Cfg, e)
                    b == Bad(P, o, Cfg, e, n) IN
                /\ o' = n /\ bad' = b
                /\ b # {} => PrintT(<<"VIOL", tid, mi, l + 1, b>>)
        /\ UNCHANGED <<tid, mi>>
\* the rest of the state is a function of these
view == <<tid, mi, l>>
Spec == Init /\ [][Next]_vars
=================================================================================
