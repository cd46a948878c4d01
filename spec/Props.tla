---------------------------------- MODULE Props ----------------------------------
(* One operator per property: the set of ways in which the step from history       *)
(* state o to n by event e violates it. Each is independent of the others.         *)
EXTENDS Contract

If(c, r) == IF c THEN {r} ELSE {}
NoStop(o) == o.stops = 0
SrcOk(o, e, s) == e.cur = "-" \/ e.cur = s \/ ~NoStop(o)
NEx(cfg, s) == IF s \in DOMAIN cfg.nex THEN cfg.nex[s] ELSE 0
NEn(cfg, s) == IF s \in DOMAIN cfg.nen THEN cfg.nen[s] ELSE 0
Foreign(x) == x = "ISE" \/ SubSeq(x, 1, 2) = "F:"
IsErr(x) == SubSeq(x, 1, 1) = "E"
Calm(o, e) == e.k = "quiet" /\ ~Held(o)

\* the last handling has made all callbacks it has to make
Complete(o, cfg) ==
  LET h == o.h IN
  \/ ~h.on \/ h.pend # "" \/ ~NoStop(o) \/ h.c0 = "exc"
  \/ IF cfg.lis THEN h.closed
     ELSE h.c0 = "un" \/ /\ h.fr = "?" \/ h.nx = NEx(cfg, h.fr)
                         /\ h.to = "?" \/ h.nn = NEn(cfg, h.to)

\* ------------------------------------------------------------------ C02
C02(o, cfg, e, n) ==
  IF cfg.w > 1 THEN {}
  ELSE IF IsWorkCb(o, e) /\ Begins(o, cfg, e)
  THEN If(~Complete(o, cfg), "incomplete")
       \cup If(e.c = "end", "end-without-begin")
       \cup If(e.c \in {"ex", "en"} /\ cfg.lis, "action-without-begin")
       \cup If(e.c \in {"ex", "en"} /\ e.i # 0, "action-order")
       \cup If(e.c = "beg" /\ ~SrcOk(o, e, e.fr), "begin-state")
       \cup If(e.c = "ex" /\ ~SrcOk(o, e, e.s), "exit-state")
       \cup If(e.c = "en" /\ ~SrcOk(o, e, e.s), "entry-state")
  ELSE IF IsWorkCb(o, e) /\ e.c \in {"ex", "en", "end"}
  THEN LET h == o.h IN
       If(e.th # h.th, "thread") \cup If(h.open, "nested")
       \cup If(~e.ok, "arguments")
       \cup CASE e.c = "ex" ->
                 If(h.nn > 0 \/ h.to = "NOOP", "exit-late") \cup If(e.i # h.nx, "exit-order")
                 \cup If(h.fr # "?" /\ e.s # h.fr, "exit-of-other-state")
                 \cup If(~SrcOk(o, e, e.s), "exit-state")
              [] e.c = "en" ->
                 If(h.to = "NOOP", "entry-of-noop") \cup If(e.i # h.nn, "entry-order")
                 \cup If(h.to # "?" /\ e.s # h.to, "entry-of-other-state")
                 \cup If(h.fr # "?" /\ h.nx # NEx(cfg, h.fr) /\ NoStop(o), "entry-early")
                 \cup If(~SrcOk(o, e, e.s), "entry-state")
              [] e.c = "end" ->
                 If((e.fr # h.fr /\ NoStop(o)) \/ e.to # h.to, "end-arguments")
                 \cup If(h.to = "NOOP" /\ (h.nx > 0 \/ h.nn > 0), "noop-actions")
                 \cup If(h.to # "NOOP" /\ NoStop(o) /\ (h.nx # NEx(cfg, h.fr) \/ h.nn # NEn(cfg, h.to)), "end-early")
                 \cup If(~SrcOk(o, e, IF h.to = "NOOP" THEN h.fr ELSE h.to), "end-state")
  ELSE IF Calm(o, e) THEN If(~Complete(o, cfg), "incomplete")
  ELSE {}

\* ------------------------------------------------------------------ C03
OthersOpen(o, th) == \E x \in DOMAIN o.stk : x # th /\ \E i \in DOMAIN o.stk[x] :
                        o.stk[x][i].k = "cb" /\ o.stk[x][i].ctx = "work"
C03(o, cfg, e, n) ==
  IF cfg.w > 1 \/ e.k # "cb" THEN {}
  ELSE LET ctx == Ctx(o, e) IN
    If(ctx \in {"fire", "nested", "stop", "obs"} /\ e.c \in {"beg", "ex", "en", "end", "un", "h"}, "reentrant")
    \cup If(ctx = "work" /\ OthersOpen(o, e.th), "overlap")
    \cup If(ctx = "work" /\ Begins(o, cfg, e) /\ e.c \in {"ex", "en", "end"} /\ <<e.e, e.p>> \in HandledNow(o),
            "interleaved")
    \cup If(ctx = "work" /\ Begins(o, cfg, e) /\ o.sopen, "start-overlap")
    \cup If(ctx = "start" /\ (OthersOpen(o, e.th) \/ InWork(o)), "start-overlap")

\* ------------------------------------------------------------------ C04
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1
RetOf(o, c, k) == LET R == {o.fs[f].r : f \in {g \in OfClass(o, c) : o.fs[g].r > 0 /\ o.fs[g].st = "ok"}} IN
                  IF Cardinality(R) < k THEN 1000000 ELSE Nth(R, k)
CallOf(o, c, k) == LET C == {o.fs[f].c : f \in {g \in OfClass(o, c) : Acc(o, g)}} IN
                   IF Cardinality(C) < k THEN 0 ELSE Nth(C, k)
Overtaken(o, c) ==
  LET r == RetOf(o, c, NumH(o, c) + 1) IN
  r < 1000000 /\ \E i \in DOMAIN o.hs :
     LET y == <<o.hs[i].e, o.hs[i].p>>
         j == Cardinality({q \in 1..i : o.hs[q].e = y[1] /\ o.hs[q].p = y[2]})
     IN y # c /\ r < CallOf(o, y, j)
C04(o, cfg, e, n) ==
  IF cfg.w > 1 \/ ~Begins(o, cfg, e) \/ (cfg.dd /\ ~o.uniq) THEN {}
  ELSE If(Overtaken(o, <<e.e, e.p>>), "order")

\* ------------------------------------------------------------------ C05
Lost(o) == {c \in Classes(o) : NumH(o, c) < Cardinality({f \in OfClass(o, c) : o.fs[f].st = "ok"})}
\* lost although a later event was handled
LostBefore(o) == {c \in Lost(o) : Cardinality(OfClass(o, c)) = 1
                    /\ \E f \in OfClass(o, c) : \E i \in DOMAIN o.hs :
                         /\ o.fs[f].r > 0
                         /\ o.fs[f].r < CallOf(o, <<o.hs[i].e, o.hs[i].p>>, 1)
                         /\ Cardinality(OfClass(o, <<o.hs[i].e, o.hs[i].p>>)) = 1}
C05(o, cfg, e, n) ==
  IF Begins(o, cfg, e)
  THEN If(NumH(n, <<e.e, e.p>>) > Cardinality(OfClass(o, <<e.e, e.p>>)), "not-fired-or-twice")
       \cup If(e.c = "exc" /\ NoStop(o), "failed")
  ELSE IF e.k = "fireR" THEN If(e.r # "ok" /\ Foreign(e.r), "fire-threw")
  ELSE IF Calm(o, e) /\ Vis(cfg) /\ ~cfg.dd
  THEN IF ~o.epos THEN If(Lost(o) # {}, "lost")
       ELSE IF cfg.w = 1 THEN If(LostBefore(o) # {}, "lost") ELSE {}
  ELSE {}

\* ------------------------------------------------------------------ C06
C06(o, cfg, e, n) ==
  CASE e.k = "obs" ->
         If(e.w = "en" /\ e.v = "F" /\ o.obs[e.th].eev, "not-ended-any-more")
         \cup If(e.w = "cur" /\ e.v # "END" /\ o.obs[e.th].eev, "state-left-end")
    [] e.k = "cb" ->
         If(o.eev /\ e.cur \notin {"END", "-"}, "state-left-end")
         \cup (IF cfg.w = 1 /\ Begins(o, cfg, e)
               THEN If(o.eev /\ n.late > (IF o.xstops > 0 THEN 1 ELSE 0), "handled-after-end")
                    \cup If(\A f \in OfClass(o, <<e.e, e.p>>) : o.fs[f].eev, "fired-after-end-handled")
               ELSE {})
    [] e.k = "fireR" ->
         If(o.fs[e.f].eev /\ cfg.rec /\ (n.fs[e.f].st # "aft" \/ n.fs[e.f].nb # 1), "not-reported-once")
         \cup If(n.fs[e.f].st = "aft" /\ n.fs[e.f].nb # 1, "reported-twice")
    [] OTHER -> {}

\* ------------------------------------------------------------------ C07
StartSeq(cfg) == (IF cfg.lis THEN <<<<"beg", 0>>>> ELSE <<>>)
                 \o [i \in 1..NEn(cfg, cfg.init) |-> <<"en", i - 1>>]
                 \o (IF cfg.lis THEN <<<<"end", 0>>>> ELSE <<>>)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
C07(o, cfg, e, n) ==
  CASE e.k \in {"startR", "sisR"} ->
         If(n.sretok > 1, "started-twice")
         \cup If(e.r = "ISE" /\ o.scalls < 2, "refused")
         \cup If(SubSeq(e.r, 1, 2) = "F:", "start-failed")
         \cup If(e.k = "startR" /\ e.r = "ok" /\ o.scb # StartSeq(cfg), "start-callbacks")
    [] e.k = "cb" ->
         LET ctx == Ctx(o, e) IN
         If(ctx = "sis", "callback-of-startInState")
         \cup If(ctx = "start" /\ e.c \in {"beg", "en", "end", "ex"} /\ ~IsPrefixOf(n.scb, StartSeq(cfg)), "start-callbacks")
         \cup If(ctx = "start" /\ e.e # "IMM", "start-event")
         \cup If(ctx = "start" /\ e.c \in {"beg", "end"} /\ (e.fr # "UNINIT" \/ e.to # cfg.init), "start-arguments")
         \cup If(ctx = "start" /\ DOMAIN o.fs = {} /\ ~SrcOk(o, e, cfg.init), "start-state")
         \cup If(ctx = "fire" /\ e.c = "bef" /\ o.fs[Top(o, e.th).f].sev, "before-after-start")
         \cup If(ctx = "work" /\ e.c = "exc" /\ Foreign(e.x) /\ NoStop(o), "failed")
         \cup (IF cfg.w = 1 /\ Begins(o, cfg, e)
               THEN If(\A f \in OfClass(o, <<e.e, e.p>>) : o.fs[f].st = "bef", "before-start-handled")
                    \cup If(o.hs = <<>> /\ e.c \in {"beg", "ex", "un"} /\ o.sst # "" /\ (cfg.lis \/ Cardinality(DOMAIN o.fs) = 1)
                       /\ ~SrcOk(o, e, o.sst) /\ ~(Ending(cfg, o.sst) /\ e.cur = "END"), "wrong-start-state")
               ELSE {})
    [] e.k = "fireR" ->
         If(n.fs[e.f].st = "bef" /\ n.fs[e.f].nb # 1, "reported-twice")
         \cup If(cfg.rec /\ o.scalls = 0 /\ n.fs[e.f].st # "bef", "accepted-before-start")
    [] Calm(o, e) -> If(o.scalls > 0 /\ o.sretok = 0 /\ ~(\E th \in DOMAIN o.stk : o.stk[th] # <<>>), "never-started")
    [] OTHER -> {}

\* ------------------------------------------------------------------ C08
C08(o, cfg, e, n) ==
  IF ~cfg.lis \/ cfg.w > 1 THEN {}
  ELSE CASE e.k = "obs" ->
              If(e.w = "en" /\ e.v = "T" /\ ~o.epos, "ended-early")
              \cup If(e.w = "en" /\ e.v = "F" /\ ~o.eunsp /\ (o.edq \/ o.obs[e.th].eev), "end-lost")
         [] e.k = "cb" ->
              If(e.c = "aft" /\ ~o.epos, "ended-early")
              \cup If(e.c = "ex" /\ Ending(cfg, e.s), "exit-of-ended-state")
              \cup If(Begins(o, cfg, e) /\ o.edq /\ ~o.eunsp, "handled-after-end")
         [] e.k = "fireR" ->
              If(cfg.rec /\ o.edq /\ ~o.eunsp /\ n.fs[e.f].st \in {"ok", "exn"} /\ o.fs[e.f].eev, "end-lost")
         [] OTHER -> {}

\* ------------------------------------------------------------------ C09
\* the state in which a failing handling leaves the machine
AfterFail(o) == LET h == o.h IN
  IF h.at \in {"beg", "ex"} \/ h.to = "NOOP" THEN h.fr
  ELSE IF h.at \in {"en", "end"} THEN h.to
  ELSE IF h.at = "un" THEN h.src ELSE "?"
C09(o, cfg, e, n) ==
  IF cfg.w > 1 THEN {}
  ELSE IF IsWorkCb(o, e)
  THEN If(cfg.rec /\ o.pend # "" /\ ~IsErr(o.pend) /\ ~(e.c = "exc" /\ e.x = o.pend /\ e.e = o.h.e /\ e.p = o.h.p), "unreported")
       \cup (IF e.c = "exc"
             THEN If(Foreign(e.x) /\ NoStop(o), "foreign") \cup If(e.x \in o.rep /\ ~Foreign(e.x), "reported-twice")
                  \cup If(~Foreign(e.x) /\ e.x \notin o.thrown, "never-thrown")
                  \cup If(~e.tok \/ ~e.ok \/ (~Begins(o, cfg, e) /\ e.th # o.h.th), "report-arguments")
                  \cup If(o.pend # "" /\ AfterFail(o) # "?" /\ ~SrcOk(o, e, AfterFail(o)), "state-after-failure")
             ELSE {})
       \cup If(Transition(e.c) /\ e.c # "beg" /\ o.h.on /\ o.h.pend # "" /\ o.h.e = e.e /\ o.h.p = e.p
                 /\ ~(e.c = "h"), "continued")
       \cup If(Begins(o, cfg, e) /\ Vis(cfg) /\ o.h.on /\ o.h.pend # "" /\ AfterFail(o) # "?" /\ ~SrcOk(o, e, AfterFail(o)),
               "state-after-failure")
  ELSE IF Calm(o, e)
  THEN If(cfg.rec /\ o.pend # "" /\ ~IsErr(o.pend), "unreported")
       \cup If(o.fail /\ Vis(cfg) /\ ~cfg.dd /\ ~o.epos /\ Lost(o) # {}, "others-lost")
  ELSE IF e.k = "obs"
  THEN If(e.w = "cur" /\ Vis(cfg) /\ o.h.on /\ o.h.pend # "" /\ NoStop(o) /\ AfterFail(o) # "?" /\ ~o.epos
            /\ ~InWork(o) /\ o.obs[e.th].t > o.h.t0 /\ o.obs[e.th].cur = o.poss /\ Cardinality(o.poss) = 1
            /\ e.v # AfterFail(o), "state-after-failure")
  ELSE {}

\* ------------------------------------------------------------------ C10
C10(o, cfg, e, n) ==
  IF cfg.w > 1 \/ ~Vis(cfg) \/ cfg.dd THEN {}
  ELSE IF e.k = "cb" /\ e.c = "exc"
  THEN IF Ctx(o, e) = "fire"
       THEN If(cfg.bound = 0, "rejected-unbounded")
            \cup If(e.x # "ISE" \/ ~e.tok \/ ~e.ok \/ e.e # o.fs[Top(o, e.th).f].e, "report-arguments")
            \cup If(n.fs[Top(o, e.th).f].nb > 1, "reported-twice")
       ELSE If(e.x = "ISE" /\ NoStop(o), "reported-elsewhere")
  ELSE IF o.epos THEN {}
  ELSE IF e.k = "fireR"
  THEN If(cfg.bound > 0 /\ n.fs[e.f].st = "rej" /\ o.fs[e.f].hi < cfg.bound, "rejected-not-full")
       \cup If(cfg.bound > 0 /\ n.fs[e.f].st = "ok" /\ o.fs[e.f].lo >= cfg.bound, "accepted-full")
       \cup If(cfg.bound > 0 /\ WaitLo(n, cfg, AllE(n)) > cfg.bound, "exceeded")
       \cup If(n.fs[e.f].st = "exn" /\ Foreign(e.r), "fire-threw")
  ELSE IF Begins(o, cfg, e)
  THEN If(\A f \in OfClass(o, <<e.e, e.p>>) : o.fs[f].st = "rej", "rejected-handled")
  ELSE IF Calm(o, e) THEN If(Lost(o) # {}, "accepted-lost")
  ELSE {}

\* ------------------------------------------------------------------ C11
C11(o, cfg, e, n) ==
  IF ~cfg.dd \/ cfg.w > 1 \/ ~Vis(cfg) THEN {}
  ELSE IF e.k = "cb" /\ Ctx(o, e) = "fire" THEN If(e.c = "exc" /\ cfg.bound = 0, "reported")
  ELSE IF o.epos \/ ~o.full \/ ~o.uniq THEN {}
  ELSE IF e.k = "fireR" /\ n.fs[e.f].st = "ok"
  THEN IF Kept(n, cfg, e.f)
       THEN If(o.fs[e.f].lo >= 1, "kept-duplicate")
            \cup If(WaitLo(n, cfg, {n.fs[e.f].e}) >= 2, "two-waiting")
       ELSE If(o.fs[e.f].hi < 1, "dropped-not-waiting")
  ELSE IF Begins(o, cfg, e)
  THEN If(NumH(n, <<e.e, e.p>>) > 1, "twice") \cup If(Overtaken(o, <<e.e, e.p>>), "order")
       \cup If(OfClass(o, <<e.e, e.p>>) = {}, "payload")
  ELSE {}

\* ------------------------------------------------------------------ C12
C12(o, cfg, e, n) ==
  IF cfg.w > 1 THEN {}
  ELSE IF e.k = "cb" /\ Ctx(o, e) = "work"
  THEN If(OfClass(o, <<e.e, e.p>>) = {}, "payload-not-fired")
       \cup (IF Begins(o, cfg, e)
             THEN If(NumH(n, <<e.e, e.p>>) > Cardinality(OfClass(o, <<e.e, e.p>>)), "payload-twice")
                  \cup If(e.c \in {"ex", "en", "end"} /\ cfg.lis /\ NoStop(o), "payload-changed")
                  \cup If(e.c = "exc" /\ NoStop(o), "failed")
             ELSE {})
  ELSE IF e.k = "cb" /\ Ctx(o, e) = "fire"
  THEN If(e.p # o.fs[Top(o, e.th).f].p, "payload-reported")
  ELSE IF Calm(o, e) /\ Vis(cfg) /\ ~cfg.dd /\ ~o.epos THEN If(Lost(o) # {}, "payload-lost")
  ELSE {}

\* ------------------------------------------------------------------ C20
C20(o, cfg, e, n) ==
  CASE e.k = "cb" ->
         If(Ctx(o, e) \in {"fire", "stop", "obs"} /\ e.c \in {"beg", "ex", "en", "end", "un", "h"}, "on-client-thread")
    [] e.k = "thr" ->
         If(Ctx(o, e) = "work" /\ ~cfg.uexec /\ ~e.dm, "not-daemon")
         \cup If(Ctx(o, e) = "work" /\ ~cfg.uexec /\ ~e.nm, "thread-name")
         \cup If(Ctx(o, e) = "work" /\ cfg.uexec /\ ~e.ue, "other-executor")
    [] e.k = "fireR" -> If(Foreign(e.r), "fire-failed")
    [] e.k = "quiet" ->
         If(\E i \in DOMAIN e.blk : Top(o, e.blk[i]).k \in {"fire", "stop", "obs"}, "call-blocked")
    [] OTHER -> {}

\* ------------------------------------------------------------------ C21
C21(o, cfg, e, n) ==
  IF cfg.w > 1 THEN {}
  ELSE IF e.k = "obs"
  THEN CASE e.w = "st" -> If(e.v = "F" /\ o.obs[e.th].sev, "started-lost") \cup If(e.v = "T" /\ o.scalls = 0, "started-early")
         [] e.w = "en" -> If(e.v = "T" /\ ~o.epos /\ cfg.lis, "ended-early") \cup If(e.v = "F" /\ o.obs[e.th].eev, "end-lost")
         [] e.w = "cur" -> If(cfg.lis /\ e.v \notin o.obs[e.th].cur, "current-state")
         [] e.w = "q" -> IF ~Vis(cfg) THEN If(e.n < 0, "negative")
                         ELSE If(e.n < 0, "negative") \cup If(e.n > o.obs[e.th].hi, "queue-size-high")
                              \cup If(~o.epos /\ e.n < o.obs[e.th].lo, "queue-size-low")
                              \cup If(o.edq /\ ~o.eunsp /\ ~Held(o) /\ e.n # 0
                                      /\ \A f \in DOMAIN o.fs : o.fs[f].r > 0 , "queue-after-end")
         [] e.w = "ctx" -> If(e.v # "T", "context")
         [] OTHER -> {}
  ELSE IF e.k = "cb" THEN If(~e.ok, "context")
       \cup If(cfg.lis /\ Ctx(o, e) \in {"fire", "start"} /\ e.cur # "-" /\ e.cur \notin n.poss \cup o.poss, "current-state")
       \cup If(cfg.lis /\ Ctx(o, e) = "work" /\ e.cur # "-" /\ e.cur \notin n.poss \cup o.poss, "current-state")
  ELSE {}
\* ------------------------------------------------------------------ C23
\* callbacks of actions wrapped with an exception handler: pend2 of the tracker is not needed, the
\* event before must be the failing action
C23(o, cfg, e, n) ==
  IF cfg.w > 1 \/ ~IsWorkCb(o, e) THEN {}
  ELSE If(e.c = "h" /\ ~(o.wf # "" /\ o.wf = e.x /\ o.wkey = <<e.s, e.i>> /\ e.e = o.h.e /\ e.p = o.h.p
                         /\ e.th = o.h.th /\ e.ok), "handler-call")
       \cup If(e.c # "h" /\ o.wf # "", "handler-not-called")
       \cup If(e.c = "exc" /\ o.pend # e.x /\ ~(Foreign(e.x) /\ ~NoStop(o)), "report")
       \cup If(e.c \in {"ex", "en", "end"} /\ o.h.pend # "" /\ o.h.e = e.e /\ o.h.p = e.p, "continued")
       \cup If(e.c \in {"ex", "en", "end"} /\ C02(o, cfg, e, n) # {}, "callbacks")
       \cup If(e.c \in {"beg", "un"} /\ ~Complete(o, cfg), "callbacks")

\* ------------------------------------------- C01, C13, C22, C25, C26, C27: the contract explains it
ByContract == {"C01", "C13", "C22", "C25", "C26", "C27"}
Explained(o, cfg, e, n) == IF cfg.w > 1 THEN {} ELSE If(n.cs = {}, "unexplained")

Bad(P, o, cfg, e, n) ==
  CASE e.k = "cfgfail" -> If(P \in {"C01", "C22"}, "configuration-refused")
    [] P \in ByContract -> Explained(o, cfg, e, n)
    [] P = "C02" -> C02(o, cfg, e, n) [] P = "C03" -> C03(o, cfg, e, n) [] P = "C04" -> C04(o, cfg, e, n)
    [] P = "C05" -> C05(o, cfg, e, n) [] P = "C06" -> C06(o, cfg, e, n) [] P = "C07" -> C07(o, cfg, e, n)
    [] P = "C08" -> C08(o, cfg, e, n) [] P = "C09" -> C09(o, cfg, e, n) [] P = "C10" -> C10(o, cfg, e, n)
    [] P = "C11" -> C11(o, cfg, e, n) [] P = "C12" -> C12(o, cfg, e, n) [] P = "C20" -> C20(o, cfg, e, n)
    [] P = "C21" -> C21(o, cfg, e, n) [] P = "C23" -> C23(o, cfg, e, n)

MonInit(P, cfg, evs) == 
  IF P \notin ByContract THEN Init0(cfg, evs)
  ELSE LET F == {i \in DOMAIN evs : evs[i].k = "fireC" /\ evs[i].m = cfg.id}
           C == {<<evs[i].e, evs[i].p>> : i \in F}
           H == {i \in DOMAIN evs : evs[i].k = "cb" /\ evs[i].m = cfg.id /\ evs[i].c \in {"beg", "ex", "en", "end", "un"}}
           first(c) == Min({i \in H : evs[i].e = c[1] /\ evs[i].p = c[2]})
           seen == {c \in C : \E i \in H : evs[i].e = c[1] /\ evs[i].p = c[2]}
       IN [cs |-> {C0(cfg)},
           pr |-> IF Cardinality(C) = Cardinality(F) THEN [c \in seen |-> first(c)] ELSE <<>>]
MonStep(P, o, cfg, e) ==
  IF P \in ByContract THEN IF cfg.w > 1 THEN o ELSE [o EXCEPT !.cs = CStep(@, cfg @@ [pr |-> o.pr], e)] ELSE
  LET s == Step(o, cfg, e) IN IF P \in {"C10", "C11", "C21"} THEN WithBounds(s, cfg) ELSE s
==================================================================================
