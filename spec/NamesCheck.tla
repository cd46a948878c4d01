-------------------------------- MODULE NamesCheck --------------------------------
(* Judges recorded comparisons of named states and events (C22): they are equal      *)
(* exactly when their names (a, b) are, in both directions, as keys, whatever actions  *)
(* or payload they carry and later get, and never equal to anything else.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
R(c, r) == IF c THEN {r} ELSE {}
Judge(e) == IF e.k # "eq" THEN {}
            ELSE LET same == e.a = e.b IN
                 R(e.r # "ok", "failed") \cup R(e.eq # same, "equal") \cup R(e.sym # same, "asymmetric")
                 \cup R(same /\ ~e.hash, "hash") \cup R(e.map # same, "key") \cup R(~e.again, "changed") \cup R(e.odd, "alien")
Init == tid \in DOMAIN Traces /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[tid].ev) /\ bad = {}
        /\ l' = l + 1
        /\ bad' = Judge(Traces[tid].ev[l + 1])
        /\ bad' # {} => PrintT(<<"VIOL", tid, 1, l + 1, bad'>>)
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=================================================================================
