------------------------------------ MODULE Log ------------------------------------
(* The lines of the logging listener (C24). Events: lnC i w fr e to (a notification of *)
(* listener i, w: begin "b" or end "e"), lnR r (its return), line lg s (a line; lg:     *)
(* from the listener's logger).                                                        *)
(* An application logs its own lifecycle with its name (line events only): the lines   *)
(* are the chain of its transitions.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Named(n) == n # ""
BeginLine(n, f, e, t) == "Begin " \o (IF Named(n) THEN n \o " " ELSE "") \o "transition: " \o f \o " + " \o e \o " = " \o t
EndLine(n, t) == IF Named(n) THEN n \o " transitioned to " \o t ELSE "Transitioned to " \o t
Text(n, c) == IF c.w = "b" THEN BeginLine(n, c.fr, c.e, c.to) ELSE EndLine(n, c.to)

G0 == [quiet |-> FALSE, stk |-> <<>>, cur |-> "_UNINITIALISED_", pend |-> "", bad |-> {}]
GStk(o, th) == IF th \in DOMAIN o.stk THEN o.stk[th] ELSE <<>>
GSet(o, th, k) == [o EXCEPT !.stk = (th :> k) @@ @]
AppStates == {"UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"}
AppEvents == {"start", "complete", "stop", "error", "_immediate_"}

GStep(o, cfg, e) ==
  CASE e.k = "lnC" -> GSet(o, e.th, <<[n |-> 0, c |-> e]>>)
    [] e.k = "line" /\ GStk(o, e.th) # <<>> ->
         LET f == GStk(o, e.th)[1] IN
         [GSet(o, e.th, <<[f EXCEPT !.n = @ + 1]>>) EXCEPT
            !.bad = (IF f.n > 0 THEN {"two-lines"} ELSE {})
                    \cup (IF e.s # Text(cfg.names[f.c.i + 1], f.c) THEN {"wrong-line"} ELSE {})]
    [] e.k = "line" /\ e.lg /\ "exit" \notin DOMAIN cfg -> [o EXCEPT !.bad = {"stray-line"}]
    [] e.k = "line" /\ e.lg /\ o.pend = "" ->
         LET T == {t \in AppStates : \E x \in AppEvents : e.s = BeginLine(cfg.names[1], o.cur, x, t)} IN
         IF T = {} THEN [o EXCEPT !.bad = {"wrong-line"}] ELSE [o EXCEPT !.pend = CHOOSE t \in T : TRUE]
    [] e.k = "line" /\ e.lg ->
         IF e.s = EndLine(cfg.names[1], o.pend) THEN [o EXCEPT !.cur = o.pend, !.pend = ""] ELSE [o EXCEPT !.bad = {"wrong-line"}]
    [] e.k = "lnR" ->
         [GSet(o, e.th, <<>>) EXCEPT !.bad = (IF GStk(o, e.th)[1].n = 0 THEN {"no-line"} ELSE {})
                                             \cup (IF e.r # "ok" THEN {"failed"} ELSE {})]
    \* the transcript says where the application is
    [] e.k = "st" -> IF e.v # "NULL" /\ o.pend = "" /\ o.quiet /\ o.cur # e.v THEN [o EXCEPT !.bad = {"not-the-state"}] ELSE o
    [] OTHER -> o
GNext(o, cfg, e) ==
  LET q == e.k = "quiet" /\ e.ph = 99 IN
  [GStep(o, cfg, e) EXCEPT !.quiet = q \/ (@ /\ e.k \in {"stC", "st"})]
=====================================================================================
