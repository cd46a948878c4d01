--------------------------------- MODULE AppProps ---------------------------------
(* The properties of application services, judged on a history of events of App.tla. *)
(* C16 and C19 ask whether App explains the history; C17 and C18 are stated on their *)
(* own.                                                                              *)
EXTENDS App
AIf(c, r) == IF c THEN {r} ELSE {}

\* ------------------------------------------------------------------ C17
\* stale: an error overtook the completion of an earlier cycle, which is still queued (known finding)
Q0 == [stale |-> FALSE, ph |-> "none", idx |-> 0, open |-> FALSE, fail |-> FALSE, done |-> TRUE, last |-> "none", lastfail |-> FALSE, in |-> ""]
QStep(o, cfg, e) ==
  CASE e.k = "beg" /\ e.to \in {"STARTING", "STOPPING"} ->
         [o EXCEPT !.ph = IF e.to = "STARTING" THEN "start" ELSE "stop", !.idx = 0, !.fail = FALSE, !.open = FALSE, !.in = ""]
    [] e.k = "end" /\ e.to \in {"STARTING", "STOPPING"} ->
         [o EXCEPT !.last = o.ph, !.lastfail = o.fail, !.done = (o.idx = cfg.n), !.ph = "none", !.in = e.to]
    [] e.k = "beg" -> [o EXCEPT !.in = "",
         !.stale = @ \/ (e.e = "error" /\ e.fr \in {"STARTING", "STOPPING"} /\ o.done /\ ~o.lastfail)]
    [] e.k = "subC" -> [o EXCEPT !.open = TRUE, !.idx = @ + 1]
    [] e.k = "subR" -> [o EXCEPT !.open = FALSE, !.fail = @ \/ e.r # "ok"]
    [] e.k = "quiet" /\ o.ph = "none" -> [o EXCEPT !.stale = FALSE]
    [] OTHER -> o
C17(o, cfg, e) ==
  CASE e.k = "subC" ->
         AIf(o.ph # e.w, "out-of-place")
         \cup AIf(o.ph = e.w /\ e.i # (IF e.w = "start" THEN o.idx ELSE cfg.n - 1 - o.idx), "order")
         \cup AIf(o.open, "overlap") \cup AIf(o.ph = e.w /\ o.fail, "after-failure") \cup AIf(~e.ok, "context")
    [] e.k = "end" /\ e.to \in {"STARTING", "STOPPING"} -> AIf(o.idx < cfg.n /\ ~o.fail, "not-all") \cup AIf(o.open, "overlap")
    [] e.k = "beg" /\ e.to = "STARTED" -> AIf(o.last # "start" \/ o.lastfail \/ ~o.done, IF o.stale THEN "stale-completion" ELSE "reported-started")
    [] e.k = "beg" /\ e.to = "STOPPED" /\ e.fr = "STOPPING" /\ e.e = "complete" ->
         AIf(o.last # "stop" \/ o.lastfail \/ ~o.done, IF o.stale THEN "stale-completion" ELSE "reported-stopped")
    [] e.k = "quiet" /\ e.ph = 99 -> AIf(o.in # "", "stuck")
    [] OTHER -> {}

\* ------------------------------------------------------------------ C18
L0 == [stk |-> <<>>, first |-> -1, ret |-> FALSE, over |-> FALSE, done |-> FALSE, ended |-> FALSE,
       it |-> {}, ask |-> FALSE, in |-> ""]
LStk(o, th) == IF th \in DOMAIN o.stk THEN o.stk[th] ELSE <<>>
LTop(o, th) == LET k == LStk(o, th) IN IF k = <<>> THEN "none" ELSE k[Len(k)]
LStep(o, cfg, e) ==
  CASE e.k \in {"startC", "stopC", "errC", "stC", "subC"} -> [o EXCEPT !.stk = (e.th :> Append(LStk(o, e.th), e.k)) @@ @]
    [] e.k \in {"startR", "stopR", "errR", "st", "subR"} ->
         LET k == LStk(o, e.th)
             o1 == IF k = <<>> THEN o ELSE [o EXCEPT !.stk = [@ EXCEPT ![e.th] = SubSeq(k, 1, Len(k) - 1)]]
             o2 == IF e.k = "startR" /\ e.th = o.first THEN [o1 EXCEPT !.ret = TRUE] ELSE o1
         IN IF e.k = "startR" THEN [o2 EXCEPT !.it = @ \ {e.th}] ELSE o2
    [] e.k = "int" -> [o EXCEPT !.it = @ \cup {e.w}, !.ask = @ \/ (e.w = o.first /\ e.w \notin o.it /\ ~o.ret /\ o.in = "STARTED")]
    [] e.k = "beg" /\ LTop(o, e.th) = "startC" -> [o EXCEPT !.first = e.th]
    [] e.k = "beg" -> [o EXCEPT !.over = @ \/ e.to = (IF cfg.exit THEN "STOPPED" ELSE "_END_"), !.ask = FALSE, !.in = ""]
    [] e.k = "end" -> [o EXCEPT !.done = @ \/ e.to = (IF cfg.exit THEN "STOPPED" ELSE "_END_"), !.ended = @ \/ e.to = "_END_",
                                !.in = e.to]
    [] OTHER -> o
C18(o, cfg, e) ==
  CASE e.k = "startR" ->
         IF e.th = o.first /\ ~o.ret
         THEN AIf(e.r # "ok" /\ ~(e.th \in o.it /\ e.r = "ISE"), "threw") \cup AIf(~o.over /\ e.th \notin o.it, "returned-early")
              \cup AIf(e.in # (e.th \in o.it), "interrupt-lost")
         ELSE AIf(SubSeq(e.r, 1, 2) = "F:", "failed") \cup AIf(e.in # (e.th \in o.it), "interrupt-lost")
    [] e.k = "quiet" ->
         AIf(o.done /\ o.first # -1 /\ ~o.ret, "not-released")
         \cup AIf(o.first \in o.it /\ ~o.ret, "interrupt-ignored") \cup AIf(e.ph = 99 /\ o.ask, "not-stopped")
         \cup AIf(\E th \in DOMAIN o.stk : th # o.first /\ LTop(o, th) = "startC", "later-start-blocked")
         \cup AIf(o.ret /\ LTop(o, o.first) = "startC", "later-start-blocked")
         \cup AIf(e.ph = 99 /\ o.over /\ ~o.ended, "not-ended")
    [] OTHER -> {}

\* ------------------------------------------------------------------ all
AMode(P) == CASE P = "C16" -> "abs" [] P = "C19" -> "err" [] OTHER -> "full"
AInit(P, cfg) == CASE P = "C17" -> Q0 [] P = "C18" -> L0 [] OTHER -> {A0}
AMon(P, o, cfg, e) ==
  CASE P = "C17" -> QStep(o, cfg, e) [] P = "C18" -> LStep(o, cfg, e)
    [] OTHER -> AStep(o, cfg @@ [mode |-> AMode(P)], e)
ABad(P, o, cfg, e, n) ==
  IF e.k = "cfgfail" THEN {"not-built"} ELSE
  CASE P = "C17" -> C17(o, cfg, e) [] P = "C18" -> C18(o, cfg, e) [] OTHER -> AIf(n = {}, "unexplained")
==================================================================================
