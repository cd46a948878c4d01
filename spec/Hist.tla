---------------------------------- MODULE Hist ----------------------------------
(* What can be known about one machine from a history of calls, returns and       *)
(* callbacks: a fold over the events. The properties in Props.tla are stated on   *)
(* this state, for histories of the specification (Impl.tla) and for histories    *)
(* recorded from the code alike.                                                  *)
(*                                                                                *)
(* Events are records with field k (kind) and th (thread):                        *)
(*  fireC f e p / fireR f r      call and return of fire; f numbers the fires      *)
(*  startC / startR r, sisC s / sisR s r, stopC / stopR r                          *)
(*  obsC w / obs w v n           observer w in st, en, cur, q, ctx                 *)
(*  cb c e p cur ok ... / cbr c r  begin and end of a callback, c in beg end       *)
(*         (fr, to), ex en h (s, i), un, exc (x, tok), aft, bef                    *)
(*  thr dm nm                    a thread makes its first callback                 *)
(*  quiet ph blk                 no thread can go on; blk = unfinished clients     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

NoH == [on |-> FALSE, th |-> -1, e |-> "", p |-> "", t0 |-> 0, fr |-> "", to |-> "", c0 |-> "",
        stage |-> "", nx |-> 0, nn |-> 0, open |-> FALSE, closed |-> TRUE, pend |-> "", at |-> "",
        skip |-> FALSE, src |-> ""]

Ending(cfg, s) == s \in Range(cfg.S) /\ (s \in Range(cfg.imm) \/ s \notin Range(cfg.conf))

Init0(cfg, evs) ==
  [t |-> 0,
   stk |-> <<>>,                    \* thread -> stack of open calls and callbacks
   fs |-> <<>>,                     \* fire number -> what is known about it
   h |-> NoH,                       \* the handling in progress or last one
   hs |-> <<>>,                     \* handlings so far: class and time of first callback
   sev |-> FALSE,                   \* evidence that the machine has started
   sst |-> "",                      \* state it was started in
   scalls |-> 0,                    \* start attempts called
   sretok |-> 0, sretise |-> 0,
   scb |-> <<>>,                    \* callbacks of the start so far
   sopen |-> FALSE,                 \* start has begun its callbacks and not finished them
   stops |-> 0,                     \* stop calls begun on the started machine
   xstops |-> 0,                    \* those not made by the handling thread itself
   eev |-> FALSE,                   \* evidence that the machine has ended
   epos |-> FALSE,                  \* something that may end the machine has begun
   edue |-> FALSE,                  \* the machine must have ended when all is quiet
   eunsp |-> FALSE,                 \* a failure while entering an ending state: end not specified
   late |-> 0,                      \* handlings begun after eev
   pend |-> "",                     \* exception thrown by a callback of the handling, not yet reported
   rep |-> {},                      \* exceptions reported
   thrown |-> {},
   poss |-> {"NULL"},               \* possible current states
   obs |-> <<>>,                    \* thread -> what an observation in progress may return
   fail |-> FALSE,
   wf |-> "", wkey |-> <<>>,        \* a wrapped action has thrown and its handler has not been called yet
   wthr |-> {},
   edq |-> FALSE,                   \* edue when all was quiet
   \* the history is complete, nothing in it ends the machine, and no two fires look the same
   full |-> /\ (evs[Len(evs)].k = "quiet" /\ evs[Len(evs)].ph = 99) \/ evs[Len(evs)].k = "obs"
            /\ ~Ending(cfg, cfg.init)
            /\ \A i \in DOMAIN evs : evs[i].k \in {"stopC", "cb"} /\ evs[i].m = cfg.id =>
                 /\ evs[i].k # "stopC"
                 /\ evs[i].c = "beg" => evs[i].to # "END" /\ ~Ending(cfg, evs[i].to),
   uniq |-> LET F == {i \in DOMAIN evs : evs[i].k = "fireC" /\ evs[i].m = cfg.id} IN
            Cardinality({<<evs[i].e, evs[i].p>> : i \in F}) = Cardinality(F),
   fut |-> {<<evs[i].e, evs[i].p>> : i \in {j \in DOMAIN evs : evs[j].k = "cb" /\ evs[j].m = cfg.id
              /\ evs[j].c \in {"beg", "ex", "en", "un"} /\ evs[j].e # "IMM"}}]

Stk(o, th) == IF th \in DOMAIN o.stk THEN o.stk[th] ELSE <<>>
Top(o, th) == LET s == Stk(o, th) IN IF s = <<>> THEN [k |-> "none"] ELSE s[Len(s)]
Push(o, th, fr) == [o EXCEPT !.stk = (th :> Append(Stk(o, th), fr)) @@ @]
Pop(o, th) == LET s == Stk(o, th) IN
  IF s = <<>> THEN o ELSE [o EXCEPT !.stk = (th :> SubSeq(s, 1, Len(s) - 1)) @@ @]

\* where a callback is made: by the handling of an event, or inside a call
Ctx(o, e) == LET t == Top(o, e.th) IN
  CASE t.k = "none" -> "work" [] t.k = "cb" -> "nested" [] OTHER -> t.k

Classes(o) == {<<o.fs[f].e, o.fs[f].p>> : f \in DOMAIN o.fs}
OfClass(o, c) == {f \in DOMAIN o.fs : o.fs[f].e = c[1] /\ o.fs[f].p = c[2]}
\* may have been put in the queue
Acc(o, f) == o.fs[f].st \in {"open", "ok"}
NumH(o, c) == Cardinality({i \in DOMAIN o.hs : o.hs[i].e = c[1] /\ o.hs[i].p = c[2]})
HandledNow(o) == {<<o.hs[i].e, o.hs[i].p>> : i \in DOMAIN o.hs}

\* every handling makes at least one callback and every transition is visible
Vis(cfg) == cfg.lis /\ cfg.rec

IsWorkCb(o, e) == e.k = "cb" /\ Ctx(o, e) = "work"
Transition(c) == c \in {"beg", "ex", "en", "end", "h"}
Continues(o, e) == /\ o.h.on /\ ~o.h.closed /\ o.h.e = e.e /\ o.h.p = e.p
                   /\ e.c \in {"ex", "en", "end", "h"}
\* the callback is the first one of a handling
Begins(o, cfg, e) ==
                /\ IsWorkCb(o, e)
                /\ IF cfg.w > 1 THEN e.c \in {"beg", "un"} ELSE
                   \/ e.c \in {"beg", "un"}
                   \/ e.c \in {"ex", "en", "end", "h"} /\ ~Continues(o, e)
                   \/ e.c = "exc" /\ o.pend = "" /\ ~(o.h.on /\ o.h.e = e.e /\ o.h.p = e.p)

\* ------------------------------------------------------------------ the fold

EndPossible(o) == [o EXCEPT !.epos = TRUE]

AddPoss(o, S) == [o EXCEPT !.poss = @ \cup S,
  !.obs = [th \in DOMAIN @ |-> [@[th] EXCEPT !.cur = @ \cup S]]]
SetPoss(o, S) == LET n == IF o.epos THEN S \cup {"END"} ELSE S IN
  [o EXCEPT !.poss = n, !.obs = [th \in DOMAIN @ |-> [@[th] EXCEPT !.cur = @ \cup n]]]

OnCb(o, cfg, e, t) ==
  LET ctx == Ctx(o, e)
      begins == Begins(o, cfg, e)
      o1 == IF ctx \in {"start", "sis"} \/ ctx = "work" THEN [o EXCEPT !.sev = TRUE] ELSE o
      \* callbacks of start
      o2 == IF ctx = "start" /\ e.c \in {"beg", "en", "end", "ex", "h"}
            THEN SetPoss([o1 EXCEPT !.scb = IF e.c = "h" THEN @ ELSE Append(@, <<e.c, IF e.c \in {"en", "ex"} THEN e.i ELSE 0>>),
                            !.sopen = TRUE, !.sst = cfg.init,
                            !.epos = @ \/ Ending(cfg, cfg.init)],
                         IF o1.hs = <<>> THEN {cfg.init} ELSE o1.poss)
            ELSE o1
      o3 == IF begins
            THEN LET fr == IF e.c \in {"beg", "end"} THEN e.fr ELSE IF e.c = "ex" THEN e.s ELSE "?"
                     to == IF e.c \in {"beg", "end"} THEN e.to ELSE IF e.c \in {"en", "h"} THEN e.s ELSE "?"
                 IN [o2 EXCEPT !.h = [NoH EXCEPT !.on = TRUE, !.th = e.th, !.e = e.e, !.p = e.p, !.t0 = t,
                               !.fr = fr, !.to = to, !.c0 = e.c, !.stage = e.c, !.open = TRUE, !.closed = FALSE,
                               !.src = e.cur,
                               !.nx = IF e.c = "ex" THEN 1 ELSE 0, !.nn = IF e.c = "en" THEN 1 ELSE 0],
                            !.hs = Append(@, [e |-> e.e, p |-> e.p, t |-> t, c |-> e.c]),
                            !.pend = "",
                            !.late = IF o2.eev THEN @ + 1 ELSE @]
            ELSE IF ctx = "work" /\ Transition(e.c)
            THEN [o2 EXCEPT !.h.stage = e.c, !.h.open = TRUE,
                            !.h.nx = IF e.c = "ex" THEN @ + 1 ELSE @,
                            !.h.nn = IF e.c = "en" THEN @ + 1 ELSE @,
                            !.h.to = IF e.c \in {"en"} /\ @ = "?" THEN e.s ELSE @]
            ELSE o2
      h == o3.h
      o4 == IF ctx = "work" /\ Transition(e.c)
            THEN LET mayEnd == h.to = "END" \/ Ending(cfg, h.to)
                     o4a == IF mayEnd /\ (e.c \in {"beg", "ex"} \/ h.to # "?") THEN EndPossible(o3) ELSE o3
                 IN IF h.to = "NOOP" THEN o4a
                    ELSE IF e.c \in {"en", "end"} \/ (e.c = "h" /\ h.nn > 0) THEN SetPoss(o4a, {h.to})
                    ELSE SetPoss(o4a, {h.fr})
            ELSE o3
      o5 == IF e.c = "exc"
            THEN IF ctx = "work"
                 THEN [o4 EXCEPT !.rep = @ \cup {e.x}, !.pend = IF e.x = o4.pend THEN "" ELSE @]
                 ELSE o4
            ELSE o4
      \* callbacks made by fire itself
      o6 == IF ctx = "fire"
            THEN LET f == Top(o, e.th).f IN
                 IF e.c = "bef" THEN [o5 EXCEPT !.fs[f].st = "bef", !.fs[f].nb = @ + 1]
                 ELSE IF e.c = "aft" THEN [o5 EXCEPT !.fs[f].st = "aft", !.fs[f].nb = @ + 1, !.eev = TRUE]
                 ELSE IF e.c = "exc" THEN [o5 EXCEPT !.fs[f].st = "rej", !.fs[f].nb = @ + 1]
                 ELSE o5
            ELSE o5
      o7 == IF ctx = "work" THEN [o6 EXCEPT !.wf = ""] ELSE o6
  IN Push(o7, e.th, [k |-> "cb", c |-> e.c, e |-> e.e, p |-> e.p, x |-> IF e.c = "exc" THEN e.x ELSE "",
                     key |-> IF e.c \in {"en", "ex", "h"} THEN <<e.c, e.s, e.i>> ELSE <<e.c>>,
                     ctx |-> ctx])

\* is the last callback of a handling over
Wrapped(cfg, fr) == /\ Len(fr.key) = 3 /\ fr.key[1] \in {"en", "ex"}
                    /\ <<fr.key[1], fr.key[2], fr.key[3]>> \in Range(cfg.wrap)

OnCbr(o, cfg, e, t) ==
  LET fr == Top(o, e.th)
      o1 == Pop(o, e.th)
      threw == e.r # "ok"
      w == Wrapped(cfg, fr) /\ SubSeq(e.r, 1, 1) # "E"
  IN IF fr.k # "cb" THEN o1
     ELSE IF fr.ctx = "work" /\ threw /\ w
     THEN [o1 EXCEPT !.h.open = FALSE, !.wf = e.r, !.wkey = <<fr.key[2], fr.key[3]>>, !.thrown = @ \cup {e.r},
                    !.rep = @ \ {e.r}]
     ELSE IF fr.ctx = "work"
     THEN LET o2 == [o1 EXCEPT !.h.open = FALSE, !.thrown = IF threw THEN @ \cup {e.r} ELSE @,
                                    !.rep = @ \ {e.r}]    \* the same object may be thrown again
              isExc == fr.c = "exc"
              ends == (~threw /\ fr.c \in {"end", "un", "exc"}) \/ (threw /\ ~w)
              o3 == IF ends THEN [o2 EXCEPT !.h.closed = TRUE] ELSE o2
              o4 == IF threw /\ ~w /\ ~isExc
                    THEN [o3 EXCEPT !.pend = e.r, !.h.pend = e.r, !.h.at = fr.c, !.fail = TRUE,
                                    !.eunsp = @ \/ (Ending(cfg, o3.h.to) /\ (fr.c \in {"en", "end"} \/ (fr.c = "h" /\ o3.h.nn > 0)))]
                    ELSE IF threw /\ isExc THEN [o3 EXCEPT !.fail = TRUE] ELSE o3
              h == o4.h
              tgt == fr.c \in {"en", "end"}
              \* an end that was reached
              o5 == IF fr.c = "end" /\ h.to = "END" THEN [o4 EXCEPT !.eev = TRUE, !.edue = TRUE]
                    ELSE IF fr.c = "end" /\ ~threw /\ Ending(cfg, h.to) THEN [o4 EXCEPT !.edue = TRUE]
                    ELSE o4
          IN IF ~Transition(fr.c) \/ h.to = "NOOP" THEN o5
             ELSE IF (fr.c \in {"beg", "ex"} \/ (fr.c = "h" /\ h.nn = 0)) /\ ~threw THEN AddPoss(o5, IF h.to = "?" THEN {} ELSE {h.to})
             ELSE o5
     ELSE IF fr.ctx = "start" /\ threw
     THEN [o1 EXCEPT !.sopen = FALSE, !.fail = TRUE,
             !.eunsp = @ \/ Ending(cfg, cfg.init)]
     ELSE IF fr.ctx = "start" /\ fr.c = "end" /\ ~threw
     THEN [o1 EXCEPT !.sopen = FALSE, !.edue = @ \/ Ending(cfg, cfg.init)]
     ELSE o1

\* some callback is still open (it waits for something the scenario does later)
Held(o) == \E th \in DOMAIN o.stk : \E i \in DOMAIN o.stk[th] : o.stk[th][i].k = "cb"

Step(o, cfg, e) ==
  LET t == o.t + 1
      oo == [o EXCEPT !.t = t]
  IN CASE e.k = "fireC" ->
            Push([oo EXCEPT !.fs = (e.f :> [e |-> e.e, p |-> e.p, c |-> t, r |-> 0, st |-> "open", nb |-> 0,
                                           th |-> e.th, sev |-> o.sev, sc |-> o.scalls, eev |-> o.eev,
                                           res |-> "", lo |-> 99999, hi |-> -1]) @@ @],
                 e.th, [k |-> "fire", f |-> e.f])
       [] e.k = "fireR" ->
            LET o1 == Pop(oo, e.th) IN
            [o1 EXCEPT !.fs[e.f].r = t, !.fs[e.f].res = e.r,
                       !.fs[e.f].st = IF @ = "open" THEN (IF e.r = "ok" THEN "ok" ELSE "exn") ELSE @,
                       !.sev = @ \/ (cfg.rec /\ o1.fs[e.f].st \in {"open", "rej", "aft"})]
       [] e.k \in {"startC", "sisC"} ->
            AddPoss(Push([oo EXCEPT !.scalls = @ + 1], e.th,
                         [k |-> IF e.k = "startC" THEN "start" ELSE "sis", s |-> IF e.k = "sisC" THEN e.s ELSE ""]),
                    {IF e.k = "startC" THEN cfg.init ELSE e.s})
       [] e.k \in {"startR", "sisR"} ->
            LET o1 == Pop(oo, e.th)
                ok == e.r # "ISE"
                st == IF e.k = "startR" THEN cfg.init ELSE e.s
            IN IF ok THEN [o1 EXCEPT !.sev = TRUE, !.sretok = @ + 1, !.sst = st, !.sopen = FALSE,
                                     !.poss = @ \ {"NULL"},
                                     !.epos = @ \/ (e.k = "startR" /\ Ending(cfg, st)),
                                     !.edue = @ \/ (e.k = "startR" /\ e.r = "ok" /\ Ending(cfg, st))]
               ELSE [o1 EXCEPT !.sretise = @ + 1]
       [] e.k = "stopC" ->
            LET inWork == \E i \in DOMAIN Stk(o, e.th) : Stk(o, e.th)[i].k = "cb" /\ Stk(o, e.th)[i].ctx = "work"
            IN AddPoss(Push([oo EXCEPT !.stops = @ + 1, !.xstops = IF inWork THEN @ ELSE @ + 1, !.epos = TRUE],
                            e.th, [k |-> "stop", sev |-> o.sev]), {"END"})
       [] e.k = "stopR" ->
            LET o1 == Pop(oo, e.th) IN
            IF Top(o, e.th).k = "stop" /\ Top(o, e.th).sev /\ e.r = "ok"
            THEN [o1 EXCEPT !.eev = TRUE, !.edue = TRUE] ELSE o1
       [] e.k = "obsC" ->
            [Push(oo, e.th, [k |-> "obs"]) EXCEPT
               !.obs = (e.th :> [cur |-> o.poss, sev |-> o.sev, eev |-> o.eev, epos |-> o.epos,
                                 t |-> t, lo |-> 99999, hi |-> -1]) @@ @]
       [] e.k = "obs" ->
            LET o1 == Pop(oo, e.th) IN
            IF e.w = "en" /\ e.v = "T" /\ o.sev THEN [o1 EXCEPT !.eev = TRUE]
            ELSE IF e.w = "st" /\ e.v = "T" THEN [o1 EXCEPT !.sev = TRUE]
            ELSE o1
       [] e.k = "cb" -> OnCb(oo, cfg, e, t)
       [] e.k = "cbr" -> OnCbr(oo, cfg, e, t)
       [] e.k = "thr" -> IF Ctx(o, e) = "work" THEN [oo EXCEPT !.wthr = @ \cup {e.th}] ELSE oo
       [] e.k = "quiet" ->
            [oo EXCEPT !.edq = @ \/ (o.edue /\ ~Held(o))]
       [] OTHER -> oo

\* ------------------------------------------------- bounds on the waiting events
InWork(o) == o.h.on /\ (o.h.open \/ ~o.h.closed)
\* a drop-duplicate queue kept the event (or may have)
Kept(o, cfg, f) == cfg.dd => o.full /\ o.uniq /\ <<o.fs[f].e, o.fs[f].p>> \in o.fut
MayKeep(o, cfg, f) == cfg.dd /\ o.full /\ o.uniq => <<o.fs[f].e, o.fs[f].p>> \in o.fut
\* handlings begun of the events in S (a set of names)
Begun(o, S) == Cardinality({i \in DOMAIN o.hs : o.hs[i].e \in S})
AllE(o) == {o.fs[f].e : f \in DOMAIN o.fs} \cup {o.hs[i].e : i \in DOMAIN o.hs}
\* at least this many are waiting now (one worker); fires counted when they have returned
WaitLo(o, cfg, S) ==
  Cardinality({f \in DOMAIN o.fs : o.fs[f].r > 0 /\ o.fs[f].st = "ok" /\ o.fs[f].e \in S /\ Kept(o, cfg, f)})
    - Begun(o, S) - (IF InWork(o) THEN 0 ELSE 1)
\* at most this many are waiting now
WaitHi(o, cfg, S) ==
  Cardinality({f \in DOMAIN o.fs : Acc(o, f) /\ o.fs[f].e \in S /\ MayKeep(o, cfg, f)}) - Begun(o, S)

\* keeps, for every fire and every observation in progress, the extremes of these since its call
WithBounds(o, cfg) ==
  LET one(f) == LET S == IF cfg.dd THEN {o.fs[f].e} ELSE AllE(o) IN
        [o.fs[f] EXCEPT !.lo = Min({@, WaitLo(o, cfg, S)}),
                        !.hi = Max({@, WaitHi(o, cfg, S) - (IF MayKeep(o, cfg, f) THEN 1 ELSE 0)})]
      lo == WaitLo(o, cfg, AllE(o))
      hi == WaitHi(o, cfg, AllE(o)) + (IF InWork(o) THEN 1 ELSE 0)
  IN [o EXCEPT !.fs = [f \in DOMAIN @ |-> IF @[f].r = 0 THEN one(f) ELSE @[f]],
               !.obs = [th \in DOMAIN @ |-> IF Top(o, th).k = "obs"
                          THEN [@[th] EXCEPT !.lo = Min({@, lo}), !.hi = Max({@, hi})] ELSE @[th]]]
=================================================================================
