----------------------------------- MODULE App -----------------------------------
(* What an application service does: its lifecycle machine with the queue of        *)
(* lifecycle events, its subsystems and its calls. A state is what one application   *)
(* is at; Visible(s, cfg, e) are the states after the recorded event e, Silent(s,    *)
(* cfg) what may happen without being recorded.                                      *)
(*                                                                                  *)
(* cfg.exit: the app ends by itself once stopped; cfg.n: number of subsystems.       *)
(* cfg.mode says how much of the history has to be explained:                        *)
(*   "full" everything                                                              *)
(*   "abs"  lifecycle, calls and observations; when subsystems complete or fail is   *)
(*          left open                                                               *)
(*   "err"  what errors do; which calls are refused, the order of the subsystems and *)
(*          the return of start are left open                                       *)
(*                                                                                  *)
(* Events: startC / startR r in (the caller is left interrupted), int w (thread w,     *)
(* which is in a start(), is interrupted), stopC / stopR r, errC / errR r, stC / st v,            *)
(* beg end (fr, e, to, cur), subC w i ok cur / subR w i r, quiet ph blk.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

To(s, e) ==
  CASE s = "UNINITIALISED" /\ e = "start" -> "STARTING"
    [] s = "STARTING" /\ e = "complete" -> "STARTED"
    [] s \in {"STARTING", "STARTED", "STOPPING"} /\ e = "error" -> "STOPPED"
    [] s = "STARTED" /\ e = "stop" -> "STOPPING"
    [] s = "STOPPING" /\ e = "complete" -> "STOPPED"
    [] s = "STOPPED" /\ e = "start" -> "STARTING"
    [] s = "STOPPED" /\ e = "stop" -> "_END_"
    [] OTHER -> "none"

AW0 == [on |-> FALSE, e |-> "", fr |-> "", to |-> "", rem |-> <<>>, th |-> -1, failed |-> FALSE, open |-> FALSE]
\* it: threads interrupted during their start()
A0 == [on |-> FALSE, cur |-> "NULL", q |-> <<>>, w |-> AW0, latch |-> FALSE, ca |-> <<>>, pe |-> 0, it |-> {}]

AStk(s, th) == IF th \in DOMAIN s.ca THEN s.ca[th] ELSE <<>>
ATop(s, th) == LET k == AStk(s, th) IN IF k = <<>> THEN [k |-> "none"] ELSE k[Len(k)]
APush(s, th, f) == [s EXCEPT !.ca = (th :> Append(AStk(s, th), f)) @@ @]
APop(s, th) == LET k == AStk(s, th) IN
  [s EXCEPT !.ca = IF Len(k) = 1 THEN [x \in DOMAIN @ \ {th} |-> @[x]] ELSE [@ EXCEPT ![th] = SubSeq(k, 1, Len(k) - 1)]]
ASet(s, th, f) == [s EXCEPT !.ca = [@ EXCEPT ![th] = Append(SubSeq(@, 1, Len(@) - 1), f)]]

\* firing a lifecycle event
Fire(s, e) == IF s.on /\ s.cur # "_END_" THEN [s EXCEPT !.q = Append(@, e)] ELSE s

\* what handling event e, which moves from f to t, consists of
Entry(cfg, t) ==
  CASE t \in {"STARTING", "STOPPING"} ->
         (CASE cfg.mode = "full" ->
                 [i \in 1..cfg.n |-> IF t = "STARTING" THEN <<"sub", "start", i - 1>> ELSE <<"sub", "stop", cfg.n - i>>]
                   \o <<<<"fire", "complete">>>>
            [] cfg.mode = "err" -> <<<<"ent">>>>
            [] OTHER -> <<>>)
    [] t = "STOPPED" -> IF cfg.exit THEN <<<<"fire", "stop">>, <<"latch">>>> ELSE <<>>
    [] OTHER -> <<>>
AScript(cfg, f, e, t) ==
  <<<<"beg">>>> \o (IF f = "STOPPED" /\ e = "stop" THEN <<<<"latch">>>> ELSE <<>>)
   \o <<<<"upd">>>> \o Entry(cfg, t) \o <<<<"end">>>>

\* ------------------------------------------------------------------ silent steps
MayStart(s, cfg) == ~s.on \/ (~cfg.exit /\ s.cur = "STOPPED")
MayStop(s, cfg) == s.cur \in {"STARTED", "STOPPED"}
ACalls(s, cfg) ==
  UNION {LET c == ATop(s, th)
             refuse == ASet(s, th, [c EXCEPT !.do = "ret", !.r = "ISE"])
             next(d) == ASet(s, th, [c EXCEPT !.do = d])
         IN
    CASE c.k = "start" /\ c.do = "?" ->
           (IF ~s.on THEN {[next("beg") EXCEPT !.on = TRUE, !.cur = "UNINITIALISED"]}
            ELSE IF MayStart(s, cfg) THEN {next("fire")} ELSE {refuse})
           \cup (IF cfg.mode = "err" /\ s.on THEN {refuse, next("fire")} ELSE {})
      [] c.k = "start" /\ c.do = "fire" -> {[Fire(s, "start") EXCEPT !.ca = next(IF c.first THEN "wait" ELSE "ret").ca]}
      [] c.k = "start" /\ c.do = "wait" -> (IF s.latch \/ cfg.mode # "full" THEN {next("ret")} ELSE {})
                                           \cup (IF th \in s.it THEN {next("int")} ELSE {})
      \* it gives up waiting and has the app stopped
      [] c.k = "start" /\ c.do = "int" -> {next(IF s.cur = "_END_" THEN "ret" ELSE "istop")}
      [] c.k = "start" /\ c.do = "ifire" -> {[Fire(s, "stop") EXCEPT !.ca = next("ret").ca]}
      [] c.k = "start" /\ c.do = "istop" ->
           (IF MayStop(s, cfg) THEN IF s.cur = "STOPPED" /\ cfg.exit THEN {next("ret")} ELSE {next("ifire")} ELSE {refuse})
           \cup (IF cfg.mode = "err" THEN {refuse, next("ifire"), next("ret")} ELSE {})
      [] c.k = "stop" /\ c.do = "?" ->
           (IF MayStop(s, cfg) THEN IF s.cur = "STOPPED" /\ cfg.exit THEN {next("ret")} ELSE {next("fire")}
            ELSE {refuse})
           \cup (IF cfg.mode = "err" THEN {refuse, next("fire")} \cup (IF cfg.exit THEN {next("ret")} ELSE {}) ELSE {})
      [] c.k \in {"stop", "err"} /\ c.do = "fire" ->
           {[Fire(s, IF c.k = "stop" THEN "stop" ELSE "error") EXCEPT !.ca = next("ret").ca]}
      [] c.k = "st" /\ c.do = "?" -> {ASet(s, th, [c EXCEPT !.do = "ret", !.r = s.cur])}
      [] OTHER -> {} : th \in DOMAIN s.ca}

Take(s, cfg, e) ==
  LET t == To(s.cur, e) IN
  IF t = "none" THEN s ELSE [s EXCEPT !.w = [AW0 EXCEPT !.on = TRUE, !.e = e, !.fr = s.cur, !.to = t,
                                                        !.rem = AScript(cfg, s.cur, e, t)]]
AWork(s, cfg) ==
  IF ~s.on THEN {}
  ELSE IF ~s.w.on
  THEN (IF s.q = <<>> THEN {} ELSE {Take([s EXCEPT !.q = Tail(@)], cfg, Head(s.q))})
       \* events the application fires at itself, where that is left open
       \cup (IF cfg.mode = "abs" /\ s.cur \in {"STARTING", "STOPPING"}
             THEN {Take(s, cfg, "complete"), Take(s, cfg, "error")} ELSE {})
       \cup (IF cfg.mode = "abs" /\ s.cur = "STARTED" /\ s.pe > 0 THEN {Take([s EXCEPT !.pe = @ - 1], cfg, "error")} ELSE {})
  ELSE LET k == Head(s.w.rem)
           s1 == [s EXCEPT !.w.rem = Tail(@)]
       IN CASE k[1] = "upd" -> {[s1 EXCEPT !.cur = s.w.to]}
            [] k[1] = "latch" -> {[s1 EXCEPT !.latch = TRUE]}
            [] k[1] = "fire" -> {Fire(s1, k[2])}
            [] k[1] = "ent" -> IF s.w.failed THEN {Fire(s1, "error")} ELSE IF s.w.open THEN {} ELSE {Fire(s1, "complete")}
            [] OTHER -> {}
ASilent(s, cfg) == ACalls(s, cfg) \cup AWork(s, cfg)
RECURSIVE AClosure(_, _, _)
AClosure(S, F, cfg) ==
  LET N == (UNION {ASilent(s, cfg) : s \in F}) \ S IN
  IF N = {} THEN S ELSE AClosure(S \cup N, N, cfg)

\* ---------------------------------------------------------------- visible steps
Done(s) == IF s.w.on /\ s.w.rem = <<>> THEN [s EXCEPT !.w = AW0] ELSE s
ANote(s, cfg, e) ==
  LET c == ATop(s, e.th)
      curOk == cfg.mode = "err" \/ e.cur = s.cur
  IN IF c.k = "start"
     THEN IF c.do = e.k /\ e.fr = "_UNINITIALISED_" /\ e.e = "_immediate_" /\ e.to = "UNINITIALISED" /\ curOk
          THEN {ASet(s, e.th, [c EXCEPT !.do = IF e.k = "beg" THEN "end" ELSE "fire", !.first = TRUE])} ELSE {}
     ELSE IF c.k = "none" /\ s.w.on /\ s.w.rem # <<>> /\ Head(s.w.rem) = <<e.k>> /\ s.w.th \in {-1, e.th}
             /\ e.fr = s.w.fr /\ e.e = s.w.e /\ e.to = s.w.to /\ curOk
     THEN {Done([s EXCEPT !.w.rem = Tail(@), !.w.th = e.th])} ELSE {}
ASub(s, cfg, e) ==
  IF cfg.mode = "abs" THEN {APush(s, e.th, [k |-> "sub"])}
  ELSE IF cfg.mode = "err" THEN {APush([s EXCEPT !.w.open = s.w.on], e.th, [k |-> "sub"])}
  ELSE IF ATop(s, e.th).k = "none" /\ s.w.on /\ s.w.rem # <<>> /\ Head(s.w.rem) = <<"sub", e.w, e.i>> /\ e.th = s.w.th /\ e.ok
          /\ e.cur = s.cur /\ ~s.w.open
  THEN {APush([s EXCEPT !.w.open = TRUE], e.th, [k |-> "sub"])} ELSE {}
ASubR(s, cfg, e) ==
  IF ATop(s, e.th).k # "sub" THEN {}
  ELSE LET s1 == APop(s, e.th) IN
  CASE cfg.mode = "abs" -> {IF e.r = "ok" THEN s1 ELSE [s1 EXCEPT !.pe = @ + 1]}
    [] cfg.mode = "err" ->
         IF e.r = "ok" \/ ~s.w.on THEN {[s1 EXCEPT !.w.open = FALSE]}
         ELSE IF s.w.failed \/ \E i \in DOMAIN s.w.rem : s.w.rem[i] = <<"ent">>
         THEN {[s1 EXCEPT !.w.open = FALSE, !.w.failed = TRUE]} ELSE {}
    [] OTHER -> {[s1 EXCEPT !.w.open = FALSE,
                            !.w.rem = IF e.r = "ok" THEN Tail(@) ELSE <<<<"fire", "error">>, <<"end">>>>]}

AVisible(s, cfg, e) ==
  CASE e.k \in {"startC", "stopC", "errC", "stC"} ->
         {APush(s, e.th, [k |-> CASE e.k = "startC" -> "start" [] e.k = "stopC" -> "stop" [] e.k = "errC" -> "err" [] OTHER -> "st",
                          do |-> IF e.k = "errC" THEN "fire" ELSE "?", r |-> "ok", first |-> FALSE])}
    [] e.k \in {"startR", "stopR", "errR"} ->
         LET c == ATop(s, e.th) IN
         IF c.k = (CASE e.k = "startR" -> "start" [] e.k = "stopR" -> "stop" [] OTHER -> "err") /\ c.do = "ret"
            /\ c.r = e.r
            /\ (cfg.mode = "full" /\ e.k = "startR" => e.in = (e.th \in s.it))
         THEN {[APop(s, e.th) EXCEPT !.it = IF e.k = "startR" THEN @ \ {e.th} ELSE @]} ELSE {}
    [] e.k = "int" -> {[s EXCEPT !.it = @ \cup {e.w}]}
    [] e.k = "st" -> LET c == ATop(s, e.th) IN
         IF c.k = "st" /\ (cfg.mode = "err" \/ (c.do = "ret" /\ c.r = e.v)) THEN {APop(s, e.th)} ELSE {}
    [] e.k \in {"beg", "end"} -> ANote(s, cfg, e)
    [] e.k = "subC" -> ASub(s, cfg, e)
    [] e.k = "subR" -> ASubR(s, cfg, e)
    \* nothing can go on
    [] e.k = "quiet" ->
         IF e.ph # 99 THEN {s}
         ELSE IF s.q # <<>> \/ s.w.on \/ (cfg.exit /\ s.cur = "STOPPED") THEN {}
         ELSE IF cfg.mode # "full" THEN {s}
         ELSE IF ASilent(s, cfg) = {} /\ s.cur \notin {"STARTING", "STOPPING"} THEN {s} ELSE {}
    [] e.k = "cfgfail" -> {}
    [] OTHER -> {s}

ANeeds(e) == e.k \in {"startR", "stopR", "errR", "st", "beg", "end", "subC", "subR", "quiet"}
AStep(S, cfg, e) ==
  LET T == IF ANeeds(e) THEN AClosure(S, S, cfg) ELSE S
  IN UNION {AVisible(s, cfg, e) : s \in T}
==================================================================================
