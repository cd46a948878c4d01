-------------------------------- MODULE Contract --------------------------------
(* What a state machine may do: the meaning of a configured transition table under *)
(* calls from any threads, at the granularity of calls, returns and callbacks.      *)
(*                                                                                  *)
(* A state s of the contract is a record                                            *)
(*   st    "new" or "on"; cur the current state; prev what it was before the end    *)
(*   q     accepted events that wait, in order                                      *)
(*   w     the handling in progress with the callbacks that remain (rem)            *)
(*   ca    thread -> stack of open calls and callbacks                              *)
(*   xs    stop has taken effect; lt no event can be in the course of being taken since then  *)
(*   un    nothing is specified any more (an ending state could not be entered)     *)
(* Visible(s, cfg, e) are the states after the visible event e, Silent(s, cfg) those *)
(* after one internal step: a call taking effect, an event leaving the queue, the   *)
(* change of the current state.                                                     *)
EXTENDS Hist

NoW == [on |-> FALSE, e |-> "", p |-> "", fr |-> "", to |-> "", rem |-> <<>>, open |-> FALSE, th |-> -1]
\* who listens: 0 nobody, 1 the listener given at first, others replace it where cfg has lsv
Lsv(cfg) == "lsv" \in DOMAIN cfg
\* where nothing is configured for what is unexpected, it is logged: the lines stand for the callbacks
Logs(cfg) == "logs" \in DOMAIN cfg
C0(cfg) == [st |-> "new", cur |-> "NULL", prev |-> "NULL", q |-> <<>>, w |-> NoW, ca |-> <<>>,
            xs |-> FALSE, lt |-> FALSE, un |-> FALSE, lis |-> IF cfg.lis THEN 1 ELSE 0, dead |-> <<>>]

CStk(s, th) == IF th \in DOMAIN s.ca THEN s.ca[th] ELSE <<>>
CTop(s, th) == LET k == CStk(s, th) IN IF k = <<>> THEN [k |-> "none"] ELSE k[Len(k)]
CPush(s, th, r) == [s EXCEPT !.ca = (th :> Append(CStk(s, th), r)) @@ @]
CPop(s, th) == LET k == SubSeq(CStk(s, th), 1, Len(CStk(s, th)) - 1) IN
               [s EXCEPT !.ca = IF k = <<>> THEN [x \in DOMAIN @ \ {th} |-> @[x]] ELSE [@ EXCEPT ![th] = k]]
CSet(s, th, r) == [s EXCEPT !.ca[th] = [@ EXCEPT ![Len(@)] = r]]
WDone(s) == IF s.w.on /\ s.w.rem = <<>> /\ ~s.w.open THEN [s EXCEPT !.w = NoW] ELSE s

CNEx(cfg, s) == IF s \in DOMAIN cfg.nex THEN cfg.nex[s] ELSE 0
CNEn(cfg, s) == IF s \in DOMAIN cfg.nen THEN cfg.nen[s] ELSE 0
Acts(k, s, n) == [i \in 1..n |-> <<k, s, i - 1>>]
Opt(c, x) == IF c THEN <<x>> ELSE <<>>
\* a notification: where the listener changes, who is told is found out at that time
Note(cfg, k) == IF Lsv(cfg) THEN <<<<"tell", k>>>> ELSE Opt(cfg.lis, <<k>>)
Tell(s, k) == IF s.lis = 0 THEN <<>> ELSE <<<<k[2], s.lis>>>>

\* what the table says
Target(cfg, st, e) == IF st \in DOMAIN cfg.tab /\ e \in DOMAIN cfg.tab[st] THEN cfg.tab[st][e] ELSE "UNMAPPED"
Script(cfg, st, e) ==
  LET t == Target(cfg, st, e) IN
  CASE t = "UNMAPPED" -> Opt(cfg.rec, <<"un">>)
    [] t = "NOOP"     -> Note(cfg, "beg") \o Note(cfg, "end")
    [] OTHER          -> Note(cfg, "beg") \o Acts("ex", st, CNEx(cfg, st)) \o <<<<"upd">>>>
                         \o Acts("en", t, CNEn(cfg, t)) \o Note(cfg, "end") \o <<<<"fin">>>>
StartScript(cfg) == Note(cfg, "beg") \o Acts("en", cfg.init, CNEn(cfg, cfg.init))
                    \o Note(cfg, "end") \o <<<<"fin">>>>

\* the machine ends: final, whatever else goes on
End(s) == IF s.cur = "END" THEN s ELSE [s EXCEPT !.prev = s.cur, !.cur = "END"]

\* ---------------------------------------------------------------- silent steps
FireQueue(s, cfg, th, c) ==
  LET ev == [e |-> c.e, p |-> c.p] IN
  IF cfg.dd /\ \E i \in DOMAIN s.q : s.q[i].e = c.e
  THEN CSet(s, th, [c EXCEPT !.do = IF Logs(cfg) THEN "dup" ELSE "ret"])
  ELSE IF cfg.bound > 0 /\ Len(s.q) >= cfg.bound
  THEN CSet(s, th, [c EXCEPT !.do = IF cfg.rec THEN "exc" ELSE "ret"])
  ELSE CSet([s EXCEPT !.q = Append(@, ev)], th, [c EXCEPT !.do = "ret"])
FireEffect(s, cfg, th, c) ==
  IF s.st = "new" THEN {CSet(s, th, [c EXCEPT !.do = IF cfg.rec THEN "bef" ELSE "ret"])}
  ELSE IF s.cur # "END" THEN {FireQueue(s, cfg, th, c)}
  ELSE {CSet(s, th, [c EXCEPT !.do = IF cfg.rec THEN "aft" ELSE "ret"])}
       \* it was found to be running just before it ended
       \cup (IF c.al THEN {FireQueue(s, cfg, th, c)} ELSE {})
\* For recorded histories cfg.pr is the order in which events will be seen to be handled: other orders
\* in the queue need not be followed up. It is empty where the future is not known.
Foreseen(s, cfg, c) ==
  <<c.e, c.p>> \in DOMAIN cfg.pr =>
    \A i \in DOMAIN s.q : <<s.q[i].e, s.q[i].p>> \in DOMAIN cfg.pr =>
       cfg.pr[<<s.q[i].e, s.q[i].p>>] < cfg.pr[<<c.e, c.p>>]

Starting(s) == \E th \in DOMAIN s.ca : CTop(s, th).k \in {"start", "sis"} /\ CTop(s, th).rem = <<<<"on">>>>
CallEffects(s, cfg) ==
  UNION {LET c == CTop(s, th) IN
    CASE c.k = "fire" /\ c.do = "?" ->
           {n \in FireEffect(s, cfg, th, c) : n.q = s.q \/ Foreseen(s, cfg, c)}
      [] c.k \in {"start", "sis"} /\ c.rem = <<<<"?">>>> ->
           IF s.st = "new"
           THEN IF Starting(s) THEN {} ELSE {CSet([s EXCEPT !.cur = c.s, !.xs = FALSE], th, [c EXCEPT !.rem = <<<<"on">>>>])}
           ELSE {CSet(s, th, [c EXCEPT !.rem = <<<<"ret", "ISE">>>>])}
      \* the current state is there before the machine can be seen to be started
      [] c.k \in {"start", "sis"} /\ c.rem = <<<<"on">>>> ->
           {CSet([s EXCEPT !.st = "on"], th, [c EXCEPT !.rem = IF c.k = "start" THEN StartScript(cfg) ELSE <<>>])}
      [] c.k = "start" /\ c.rem = <<<<"fin">>>> ->
           {CSet(IF Ending(cfg, cfg.init) THEN End(s) ELSE s, th, [c EXCEPT !.rem = <<>>])}
      [] c.k = "start" /\ c.rem # <<>> /\ Head(c.rem)[1] = "tell" ->
           {CSet(s, th, [c EXCEPT !.rem = Tell(s, Head(@)) \o Tail(@)])}
      [] c.k = "setl" /\ c.do = "?" -> {CSet([s EXCEPT !.lis = c.l], th, [c EXCEPT !.do = "ret"])}
      [] c.k = "stop" /\ c.do = "?" /\ ~Starting(s) ->
           {CSet(IF s.cur = "END" THEN s ELSE [End(s) EXCEPT !.xs = TRUE, !.lt = @ \/ s.w.on], th, [c EXCEPT !.do = "ret"])}
      [] c.k = "obs" /\ c.v = "?" ->
           {CSet(s, th, [c EXCEPT !.v = CASE c.w = "st" -> IF s.st = "on" THEN "T" ELSE "F"
                                          [] c.w = "en" -> IF s.cur = "END" THEN "T" ELSE "F"
                                          [] c.w = "cur" -> s.cur
                                          [] c.w = "q" -> ToString(Len(s.q))
                                          [] OTHER -> "T"])}
      [] OTHER -> {} : th \in DOMAIN s.ca}

WorkSteps(s, cfg) ==
  IF s.st = "new" THEN {}
  ELSE IF ~s.w.on
  THEN IF s.q = <<>> THEN {}
       ELSE LET h == Head(s.q)
                s1 == [s EXCEPT !.q = Tail(@)]
                take(st, sc) == WDone([s1 EXCEPT !.w = [NoW EXCEPT !.on = TRUE, !.e = h.e, !.p = h.p, !.fr = st,
                                                          !.to = Target(cfg, st, h.e), !.rem = sc]])
            IN IF s.cur # "END" THEN {take(s.cur, Script(cfg, s.cur, h.e))}
               ELSE {[s1 EXCEPT !.lt = TRUE]} \cup
                    \* stop came while the event was being taken
                    (IF s.xs /\ ~s.lt
                     THEN {[take(s.prev, Script(cfg, s.prev, h.e)) EXCEPT !.lt = TRUE],
                           [take("END", Opt(cfg.rec, <<"un">>)) EXCEPT !.lt = TRUE],
                           [take(s.prev, Opt(cfg.rec, <<"exc", "F:">>)) EXCEPT !.lt = TRUE]}
                     ELSE {})
  ELSE IF s.w.open \/ s.w.rem = <<>> THEN {}
  ELSE LET k == Head(s.w.rem)
           s1 == WDone([s EXCEPT !.w.rem = Tail(@)])
       IN (CASE k[1] = "upd" -> {IF s.cur = "END" THEN s1 ELSE [s1 EXCEPT !.cur = s.w.to, !.prev = s.cur]}
             [] k[1] = "tell" -> {WDone([s EXCEPT !.w.rem = Tell(s, k) \o Tail(@)])}
             [] k[1] = "fin" -> {IF s.w.to = "END" \/ Ending(cfg, s.w.to) THEN End(s1) ELSE s1}
             [] OTHER -> {})
          \* an event in progress may not complete as expected when the machine is stopped
          \cup (IF s.xs /\ s.cur = "END" /\ k[1] = "upd" /\ s.w.th = -1 /\ cfg.rec
                THEN {[s EXCEPT !.w.rem = <<<<"un">>>>], [s EXCEPT !.w.rem = <<<<"exc", "F:">>>>]} ELSE {})
          \cup (IF s.xs /\ s.cur = "END" /\ k[1] \notin {"upd", "fin", "tell"}
                THEN (IF k[1] \in {"ex", "en"} THEN {s1} ELSE {}) \cup {WDone([s EXCEPT !.w.rem = <<>>])}
                     \cup (IF s.w.th = -1 /\ cfg.rec /\ k # <<"un">> THEN {[s EXCEPT !.w.rem = <<<<"un">>>>]} ELSE {})
                     \cup (IF cfg.rec /\ k[1] # "exc" THEN {[s EXCEPT !.w.rem = <<<<"exc", "F:">>>>]} ELSE {})
                ELSE {})

Silent(s, cfg) == CallEffects(s, cfg) \cup WorkSteps(s, cfg)

RECURSIVE Closure(_, _, _)
Closure(S, F, cfg) ==
  LET N == (UNION {Silent(s, cfg) : s \in F}) \ S IN
  IF N = {} THEN S ELSE Closure(S \cup N, N, cfg)

\* ---------------------------------------------------------------- visible steps
Arg(s, e) == e.ok /\ (e.cur = "-" \/ e.cur = s.cur)
XMatch(want, x) == IF want = "F:" THEN x = "ISE" \/ SubSeq(x, 1, 2) = "F:" ELSE x = want
\* the callback e is the one that has to come, in a script
Matches(s, k, e, ev, p, fr, to) ==
  /\ Arg(s, e) /\ e.e = ev /\ e.p \in {p, "*"} /\ e.c = k[1]
  /\ CASE e.c \in {"beg", "end"} -> (e.fr = fr \/ (s.xs /\ e.fr = "END")) /\ e.to = to /\ (Len(k) > 1 => e.l = k[2])
       [] e.c \in {"ex", "en"} -> e.s = k[2] /\ e.i = k[3]
       [] e.c = "h" -> e.s = k[2] /\ e.i = k[3] /\ e.x = k[4]
       [] e.c = "exc" -> XMatch(k[2], e.x) /\ e.tok
       [] OTHER -> TRUE
IsError(x) == SubSeq(x, 1, 1) = "E"
IsWrapped(cfg, k) == k[1] \in {"en", "ex"} /\ <<k[1], k[2], k[3]>> \in Range(cfg.wrap)

VCb(s, cfg, e) ==
  LET c == CTop(s, e.th)
      fr(ow) == [k |-> "cb", ow |-> ow]
  IN CASE c.k = "none" ->
            IF s.w.on /\ ~s.w.open /\ s.w.rem # <<>> /\ s.w.th \in {-1, e.th}
               /\ Matches(s, Head(s.w.rem), e, s.w.e, s.w.p, s.w.fr, s.w.to)
            THEN {CPush([s EXCEPT !.w.open = TRUE, !.w.th = e.th], e.th, fr("work"))} ELSE {}
       [] c.k = "start" ->
            IF c.rem # <<>> /\ Matches(s, Head(c.rem), e, "IMM", "-", "UNINIT", cfg.init)
            THEN {CPush(s, e.th, fr("start"))} ELSE {}
       [] c.k = "fire" ->
            IF c.do = e.c /\ Arg(s, e) /\ e.e = c.e /\ e.p \in {c.p, "*"} /\ (e.c = "exc" => e.x = "ISE" /\ e.tok)
            THEN {CPush(s, e.th, fr("fire"))} ELSE {}
       [] OTHER -> {}

\* the script after its first callback has returned r
After(cfg, rem, r, rec) ==
  LET k == Head(rem) IN
  IF r = "ok" THEN Tail(rem)
  ELSE IF IsWrapped(cfg, k) /\ ~IsError(r) THEN <<<<"h", k[2], k[3], r>>>> \o Tail(rem)
  ELSE IF rec = "start" THEN <<<<"ret", r>>>>
  ELSE IF k[1] = "exc" \/ IsError(r) \/ ~cfg.rec THEN <<>>
  ELSE <<<<"exc", r>>>>
Fails(cfg, k, r) == r # "ok" /\ ~(IsWrapped(cfg, k) /\ ~IsError(r))

VCbr(s, cfg, e) ==
  LET c == CTop(s, e.th)
      s1 == CPop(s, e.th)
  IN IF c.k # "cb" THEN {}
     ELSE IF c.ow = "work"
     THEN {WDone([s1 EXCEPT !.w.open = FALSE, !.w.rem = After(cfg, @, e.r, "work"),
                            !.dead = IF Logs(cfg) /\ ~cfg.uexec /\ IsError(e.r) THEN Append(@, <<e.th, e.r>>) ELSE @,
                            !.un = @ \/ (Head(s.w.rem)[1] \in {"en", "end", "h"} /\ Fails(cfg, Head(s.w.rem), e.r)
                                         /\ Ending(cfg, s.w.to))])}
     ELSE LET b == CTop(s1, e.th) IN
          IF c.ow = "start"
          THEN {CSet([s1 EXCEPT !.un = @ \/ (Fails(cfg, Head(b.rem), e.r) /\ Ending(cfg, cfg.init))],
                     e.th, [b EXCEPT !.rem = After(cfg, @, e.r, "start")])}
          ELSE {CSet(s1, e.th, [b EXCEPT !.do = "ret", !.r = e.r])}

\* a line of the log: what it says is e.c, the event and the state it names e.e and e.st, the exception
\* that comes with it e.x, and whether it names the thread e.tok
Line(s, cfg, e) ==
  LET now == {s.cur} \cup IF s.cur = "END" THEN {s.prev} ELSE {}
      ok == CASE e.c \in {"un", "dup"} -> e.lv \in {"INFO", "WARN"}
              [] e.c \in {"bef", "aft"} -> e.lv \in {"WARN", "ERROR"}
              [] OTHER -> e.lv = "ERROR" /\ e.tok
  IN IF ~ok THEN {}
     ELSE IF e.c = "unc"
     THEN {[s EXCEPT !.dead = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] :
             i \in {j \in DOMAIN s.dead : s.dead[j] = <<e.th, e.x>>}}
     ELSE IF CTop(s, e.th).k = "none" /\ e.c \in {"un", "exc"} /\ e.st \notin now THEN {}
     ELSE UNION {VCbr(n, cfg, [th |-> e.th, r |-> "ok"]) : n \in VCb(s, cfg, e)}

Visible(s, cfg, e) ==
  CASE e.k = "fireC" -> {CPush(s, e.th, [k |-> "fire", e |-> e.e, p |-> e.p, do |-> "?", r |-> "ok", al |-> s.cur # "END"])}
    [] e.k = "fireR" -> LET c == CTop(s, e.th) IN
         IF c.k = "fire" /\ c.do = "ret" /\ c.r = e.r THEN {CPop(s, e.th)} ELSE {}
    [] e.k = "startC" -> {CPush(s, e.th, [k |-> "start", s |-> cfg.init, rem |-> <<<<"?">>>>])}
    [] e.k = "sisC" -> {CPush(s, e.th, [k |-> "sis", s |-> e.s, rem |-> <<<<"?">>>>])}
    [] e.k \in {"startR", "sisR"} -> LET c == CTop(s, e.th) IN
         IF c.k \in {"start", "sis"} /\ (IF c.rem = <<>> THEN e.r = "ok" ELSE c.rem = <<<<"ret", e.r>>>>)
         THEN {CPop(s, e.th)} ELSE {}
    [] e.k = "stopC" -> {CPush(s, e.th, [k |-> "stop", do |-> "?"])}
    [] e.k = "stopR" -> LET c == CTop(s, e.th) IN
         IF c.k = "stop" /\ c.do = "ret" /\ e.r = "ok" THEN {CPop(s, e.th)} ELSE {}
    [] e.k = "setlC" -> {CPush(s, e.th, [k |-> "setl", l |-> e.l, do |-> "?"])}
    [] e.k = "setlR" -> LET c == CTop(s, e.th) IN
         IF c.k = "setl" /\ c.do = "ret" /\ e.r = "ok" THEN {CPop(s, e.th)} ELSE {}
    [] e.k = "obsC" -> {CPush(s, e.th, [k |-> "obs", w |-> e.w, v |-> "?"])}
    [] e.k = "obs" -> LET c == CTop(s, e.th) IN
         IF c.k = "obs" /\ c.v = (IF e.w = "q" THEN ToString(e.n) ELSE e.v) THEN {CPop(s, e.th)} ELSE {}
    [] e.k = "cb" -> VCb(s, cfg, e)
    [] e.k = "ln" -> Line(s, cfg, e)
    [] e.k = "cbr" -> VCbr(s, cfg, e)
    \* nothing can go on: every accepted event has been handled
    [] e.k = "quiet" -> IF e.ph # 99 \/ (s.q = <<>> /\ ~s.w.on /\ s.dead = <<>>) THEN {s} ELSE {}
    [] OTHER -> {s}

NeedsClosure(e) == e.k \in {"fireR", "startR", "sisR", "stopR", "setlR", "obs", "cb", "ln", "quiet"}
\* all states the contract allows after e when it was in one of S
CStep(S, cfg, e) ==
  IF \E s \in S : s.un THEN S
  ELSE LET T == IF NeedsClosure(e) THEN Closure(S, S, cfg) ELSE S
           U == UNION {Visible(s, cfg, e) : s \in {x \in T : ~x.un}}
       IN IF \E s \in T : s.un THEN {CHOOSE s \in T : s.un}
          \* too many ways to follow up: the rest of the history is not judged
          ELSE IF Cardinality(U) > 300 THEN {[C0(cfg) EXCEPT !.un = TRUE, !.cur = "UNDECIDED"]} ELSE U
==================================================================================
