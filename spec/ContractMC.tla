------------------------------- MODULE ContractMC -------------------------------
(* Model checking of the contract itself. An environment of small but free clients *)
(* drives Contract.tla: it may make any of a few calls at any point, also inside    *)
(* callbacks, and callbacks may fail. Every history the contract allows is          *)
(* generated, and                                                                  *)
(*   Holds   every property of Props.tla holds on every one of them: the contract   *)
(*           has the properties, and no property alarms on what the contract allows *)
(*   Live    no history gets stuck: every call returns and every accepted event     *)
(*           is handled                                                             *)
(*   Emit    writes each history with the order of steps that leads to it, for      *)
(*           replay into the real code                                              *)
EXTENDS Props, Json, IOUtils, SequencesExt
SCOPE == IOEnv.SCOPE
File == IOEnv.OUT
Which == IF "PROPS" \in DOMAIN IOEnv THEN IOEnv.PROPS ELSE "ALL"
Stride == IF "STRIDE" \in DOMAIN IOEnv THEN atoi(IOEnv.STRIDE) ELSE 1

Boot == 1
Worker == 10

\* ------------------------------------------------------------- configurations
Two == [S |-> <<"s0", "s1">>, init |-> "s0", conf |-> <<"s0", "s1">>,
        tab |-> [s0 |-> [e0 |-> "s1", e1 |-> "NOOP"], s1 |-> [e0 |-> "s0"]],
        imm |-> <<>>, nen |-> [s0 |-> 1, s1 |-> 1], nex |-> [s0 |-> 1, s1 |-> 1],
        lis |-> TRUE, rec |-> TRUE, dd |-> FALSE, bound |-> 0, w |-> 1, uexec |-> FALSE,
        tn |-> "state-machine", wrap |-> <<>>, id |-> 0]
Bare(c) == [c EXCEPT !.nen = [s \in DOMAIN @ |-> 0], !.nex = [s \in DOMAIN @ |-> 0]]
Self == [Two EXCEPT !.tab = [s0 |-> [e0 |-> "s0", e1 |-> "s1"], s1 |-> [e1 |-> "s1"]],
                    !.nen = [s0 |-> 2, s1 |-> 0], !.nex = [s0 |-> 2, s1 |-> 1]]
Ends1 == [Two EXCEPT !.tab = [s0 |-> [e0 |-> "s1", e1 |-> "END"]], !.conf = <<"s0">>]
Ends2 == [Two EXCEPT !.tab = [s0 |-> [e0 |-> "s1", e1 |-> "s1"]], !.imm = <<"s1">>]
Ends4 == [Two EXCEPT !.tab = [s0 |-> [e0 |-> "s1", e1 |-> "s0"]]]     \* s1 is configured but receives nothing
Ends3 == [Two EXCEPT !.tab = [s1 |-> [e0 |-> "s0"]], !.imm = <<"s0">>]
\* what LifecycleStateMachineUtil is documented to set up; e0: start, e1: complete, e2: stop, e3: error
Life == [Two EXCEPT !.S = <<"s0", "s1", "s2", "s3", "s4">>, !.conf = <<"s0", "s1", "s2", "s3", "s4">>,
                    !.tab = [s0 |-> [e0 |-> "s1"], s1 |-> [e1 |-> "s2", e3 |-> "s4"], s2 |-> [e2 |-> "s3", e3 |-> "s4"],
                             s3 |-> [e1 |-> "s4", e3 |-> "s4"], s4 |-> [e0 |-> "s1", e2 |-> "END"]],
                    !.nen = [s0 |-> 1, s1 |-> 1, s2 |-> 2, s3 |-> 1, s4 |-> 1],
                    !.nex = [s \in {"s0", "s1", "s2", "s3", "s4"} |-> 0]] @@ [life |-> TRUE]
NoLis(c) == [c EXCEPT !.lis = FALSE]
NoRec(c) == [c EXCEPT !.rec = FALSE]
Dd(c) == [c EXCEPT !.dd = TRUE]
Bound(c, n) == [c EXCEPT !.bound = n]
Lis(c) == c @@ [lsv |-> TRUE]
Log(c) == c @@ [logs |-> TRUE]
Wrap(c) == [c EXCEPT !.wrap = <<<<"ex", "s0", 0>>, <<"en", "s1", 0>>>>]

F(e) == [t |-> "fire", a |-> e]
FN(e) == [t |-> "firen", a |-> e]     \* without a payload
Stop == [t |-> "stop", a |-> ""]
Start == [t |-> "start", a |-> ""]
Sis(s) == [t |-> "sis", a |-> s]
SetL(l) == [t |-> "setl", a |-> l]
Obs(w) == [t |-> "obs", a |-> w]
AllObs == {Obs("st"), Obs("en"), Obs("cur"), Obs("q"), Obs("ctx")}
Sc(cfgs, cl, ops, nest, nops, exc, kinds) ==
  [cfgs |-> cfgs, boot |-> TRUE, cl |-> cl, ops |-> ops, nest |-> nest, nops |-> nops, exc |-> exc, kinds |-> kinds]
Raced(sc) == [sc EXCEPT !.boot = FALSE]
None == {}

\* cl: how many calls each client makes; nest: calls made inside callbacks; exc: failures
Scope ==
  CASE SCOPE = "table" -> Sc({Two, Self, Ends1, NoLis(Two), NoRec(Two)}, <<2>>, {F("e0"), F("e1"), F("e2")}, 0, None, 0, None)
    [] SCOPE = "order" -> Sc({Bare(Two), NoLis(Two)}, <<2, 1>>, {F("e0"), FN("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "order3" -> Sc({Bare(Two)}, <<1, 1, 1>>, {F("e0"), F("e1")}, 0, None, 0, None)
    [] SCOPE = "stop" -> Sc({Bare(Two)}, <<1, 1>>, {F("e0"), Stop}, 1, {Stop, F("e0")}, 0, None)
    [] SCOPE = "stop2" -> Sc({Bare(Two), NoLis(Two)}, <<2, 1>>, {F("e0"), Stop}, 0, None, 0, None)
    [] SCOPE = "start" -> Raced(Sc({Bare(Two), Ends3, NoRec(Bare(Two))}, <<1, 1>>, {F("e0"), Start, Sis("s1"), Stop}, 1, {F("e1")}, 0, None))
    [] SCOPE = "start3" -> Raced(Sc({Bare(Two)}, <<2, 1>>, {F("e0"), Start, Obs("st"), Obs("cur")}, 0, None, 0, None))
    [] SCOPE = "ends" -> Sc({Ends1, Ends2, Ends3, Ends4}, <<2>>, {F("e0"), F("e1")}, 1, {F("e0"), Obs("en")}, 0, None)
    [] SCOPE = "fail" -> Sc({Two, NoLis(Self), NoRec(Two)}, <<2>>, {F("e0"), F("e2")}, 1, {F("e1")}, 2, {"X", "E"})
    [] SCOPE = "wrap" -> Sc({Wrap(Two), Wrap(NoLis(Two))}, <<2>>, {F("e0")}, 0, None, 3, {"X", "E"})
    [] SCOPE = "bound" -> Sc({Bound(Bare(Two), 1), Bound(Bare(Two), 2)}, <<2, 1>>, {F("e0"), F("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "dup" -> Sc({Dd(Bare(Two)), Dd(Bound(Bare(Two), 1))}, <<2, 1>>, {F("e0"), F("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "obs" -> Sc({Bare(Two), Bare(Ends2)}, <<1, 1>>, {F("e0")} \cup AllObs, 1, AllObs, 0, None)
    [] SCOPE = "lis" -> Sc({Lis(Two), Lis(NoLis(Two))}, <<1, 1>>, {F("e0"), F("e1"), SetL(2)}, 1, {SetL(0), SetL(3)}, 0, None)
    [] SCOPE = "lisfail" -> Sc({Lis(Bare(Two))}, <<1, 1>>, {F("e0"), SetL(2)}, 1, {SetL(0), SetL(3)}, 1, {"X"})
    [] SCOPE = "log" -> Sc({Log(NoLis(Two)), Log(Dd(Bound(Bare(Two), 1)))}, <<1, 1>>, {F("e0"), F("e2")}, 1, {F("e0")}, 1, {"X", "E"})
    [] SCOPE = "logstop" -> Sc({Log(Two)}, <<1, 1>>, {F("e0"), F("e2"), Stop}, 1, {F("e2")}, 1, {"X"})
    \* small ones for quick checks
    [] SCOPE = "table0" -> Sc({Two, NoLis(Self), Ends1}, <<2>>, {F("e0"), F("e1")}, 0, None, 0, None)
    [] SCOPE = "order0" -> Sc({NoLis(Bare(Two))}, <<1, 1>>, {F("e0"), FN("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "fires0" -> Sc({NoLis(NoRec(Bare(Two)))}, <<2, 1>>, {F("e0"), F("e1")}, 0, None, 0, None)
    [] SCOPE = "stop0" -> Sc({Bare(Two)}, <<1, 1>>, {F("e0"), Stop}, 0, None, 0, None)
    [] SCOPE = "stop1" -> Sc({NoLis(Bare(Two))}, <<1>>, {F("e0"), Stop}, 1, {Stop, F("e0")}, 0, None)
    [] SCOPE = "start0" -> Raced(Sc({NoLis(Bare(Two)), NoLis(Bare(Ends3))}, <<1, 1>>, {F("e0"), Start, Sis("s1")}, 0, None, 0, None))
    [] SCOPE = "start1" -> Raced(Sc({Bare(Two), Bare(Ends3)}, <<3>>, {F("e0"), Start, Sis("s1"), Stop}, 0, None, 0, None))
    [] SCOPE = "ends0" -> Sc({Bare(Ends1), Ends2, Bare(Ends3), Ends4}, <<1>>, {F("e0"), F("e1")}, 1, {F("e0"), Obs("en")}, 0, None)
    [] SCOPE = "fail0" -> Sc({NoLis(Self)}, <<1>>, {F("e0")}, 0, None, 2, {"X", "E"})
    [] SCOPE = "fail1" -> Sc({NoRec(Bare(Two))}, <<1>>, {F("e0"), F("e2")}, 1, {F("e1")}, 2, {"X"})
    [] SCOPE = "wrap0" -> Sc({Wrap(Two), Wrap(NoLis(Two))}, <<1>>, {F("e0")}, 0, None, 2, {"X", "E"})
    [] SCOPE = "bound0" -> Sc({Bound(NoLis(Bare(Two)), 1)}, <<1, 1>>, {F("e0"), F("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "bound1" -> Sc({Bound(NoLis(NoRec(Bare(Two))), 1)}, <<2, 1>>, {F("e0"), F("e2")}, 0, None, 0, None)
    [] SCOPE = "dup0" -> Sc({Dd(NoLis(Bare(Two)))}, <<1, 1>>, {F("e0"), F("e1")}, 1, {F("e0")}, 0, None)
    [] SCOPE = "dup1" -> Sc({Dd(NoLis(NoRec(Bare(Two)))), Dd(Bound(NoLis(NoRec(Bare(Two))), 1))}, <<2, 1>>, {F("e0"), F("e2")}, 0, None, 0, None)
    [] SCOPE = "obs0" -> Sc({NoLis(Bare(Two)), NoLis(Bare(Ends2))}, <<1, 1>>, {F("e0")} \cup AllObs, 0, None, 0, None)
    [] SCOPE = "lis0" -> Sc({Lis(Bare(Two))}, <<1, 1>>, {F("e0"), SetL(2)}, 1, {SetL(0)}, 0, None)
    [] SCOPE = "lis1" -> Sc({Lis(NoLis(Two))}, <<1, 1>>, {F("e0"), F("e1"), SetL(2)}, 0, None, 0, None)
    [] SCOPE = "lisstart" -> Raced(Sc({Lis(Bare(Two)), Lis(NoLis(Two))}, <<1, 1>>, {Start, SetL(2), SetL(0)}, 1, {SetL(3)}, 0, None))
    [] SCOPE = "log0" -> Sc({Log(NoLis(Two)), Log(Bare(Ends1))}, <<2>>, {F("e0"), F("e1"), F("e2")}, 0, None, 1, {"X", "E"})
    [] SCOPE = "log1" -> Sc({Log(Dd(NoLis(Bare(Two)))), Log(Bound(NoLis(Bare(Two)), 1))}, <<2, 1>>, {F("e2")}, 0, None, 0, None)
    [] SCOPE = "log2" -> Raced(Sc({Log(NoLis(Bare(Two)))}, <<1, 1>>, {F("e0"), F("e2"), Start, Stop}, 0, None, 0, None))
    [] SCOPE = "life0" -> Raced(Sc({NoLis(NoRec(Life))}, <<2>>, {F(e) : e \in {"e0", "e1", "e2", "e3"}} \cup {Start} \cup {Sis(Life.S[i]) : i \in 1..5}, 0, None, 0, None))
    [] SCOPE = "life" -> Raced(Sc({NoLis(NoRec(Life)), Life}, <<3>>, {F(e) : e \in {"e0", "e1", "e2", "e3", "e4"}} \cup {Start} \cup {Sis(Life.S[i]) : i \in 1..5}, 0, None, 0, None))
    \* random walks through larger ones
    [] SCOPE = "walk" -> Sc({Two, Self, Ends1, Ends2, Bound(Two, 2), Dd(Two), Wrap(Self), NoLis(Two), NoRec(Self)}, <<3, 2, 2>>,
                            {F("e0"), F("e1"), FN("e2"), F("e0"), Obs("cur"), Obs("q")}, 3,
                            {F("e0"), F("e1"), Obs("q"), Obs("cur")}, 2, {"X", "E"})
    [] SCOPE = "walkstop" -> Sc({Two, Self, Ends1, Ends2, Ends4, Bound(Two, 2), Wrap(Self), NoLis(Two)}, <<3, 2, 2>>,
                            {F("e0"), F("e1"), Stop, Start, Obs("cur"), Obs("en")}, 2, {F("e0"), Stop, Obs("en")}, 1, {"X"})
    [] SCOPE = "walkstart" -> Raced(Sc({Two, Self, Ends1, Ends3, NoLis(Two), NoRec(Two)}, <<3, 2, 2>>,
                            {F("e0"), F("e1"), Stop, Start, Sis("s1"), Obs("cur"), Obs("st")}, 2, {F("e0"), Stop, Obs("en"), Start}, 1, {"X"}))

\* the properties folded over the histories: those that can be decided here
Ps == IF Which = "ALL"
      THEN {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C20", "C21", "C23"}
      ELSE IF Which = "NONE" THEN {} ELSE {Which}

VARIABLES cfg, s, h, opn, steps, left, nest, exc, ph
vars == <<cfg, s, h, opn, steps, left, nest, exc, ph>>
Kf == cfg @@ [pr |-> <<>>]
Clients == {i + 1 : i \in DOMAIN Scope.cl}
Threads == Clients \cup {Worker, Boot}

Init == /\ cfg \in Scope.cfgs
        /\ s = C0(cfg) /\ h = <<>> /\ steps = <<>> /\ ph = IF Scope.boot THEN "boot" ELSE "run"
        /\ left = [c \in Clients |-> Scope.cl[c - 1]]
        /\ opn = [th \in Threads |-> <<>>]
        /\ nest = Scope.nest /\ exc = Scope.exc

FNo == Cardinality({i \in DOMAIN h : h[i].k = "fireC"}) + 1
XNo == Cardinality({i \in DOMAIN h : h[i].k = "cbr" /\ h[i].r # "ok"}) + 1

\* the event that begins a call
Call(th, op) ==
  CASE op.t = "fire"  -> [k |-> "fireC", th |-> th, m |-> 0, f |-> FNo, e |-> op.a, p |-> "p" \o ToString(FNo)]
    [] op.t = "firen" -> [k |-> "fireC", th |-> th, m |-> 0, f |-> FNo, e |-> op.a, p |-> "-"]
    [] op.t = "stop"  -> [k |-> "stopC", th |-> th, m |-> 0]
    [] op.t = "start" -> [k |-> "startC", th |-> th, m |-> 0]
    [] op.t = "sis"   -> [k |-> "sisC", th |-> th, m |-> 0, s |-> op.a]
    [] op.t = "setl"  -> [k |-> "setlC", th |-> th, m |-> 0, l |-> op.a]
    [] op.t = "obs"   -> [k |-> "obsC", th |-> th, m |-> 0, w |-> op.a]
\* what thread th is in: numbers of fires and names of callbacks, innermost last
Inner(th) == opn[th][Len(opn[th])]
Opens(e) == CASE e.k = "fireC" -> <<ToString(e.f)>> [] e.k = "cb" -> <<e.c>>
              [] e.k \in {"startC", "sisC", "stopC", "setlC", "obsC"} -> <<"">> [] OTHER -> <<>>
Cb(th, c, e, p) == [k |-> "cb", th |-> th, m |-> 0, c |-> c, e |-> e, p |-> p, cur |-> s.cur, ok |-> TRUE]
\* the callback at the head of a script
ScriptCb(th, k, e, p, fr, to) ==
  CASE k[1] \in {"beg", "end"} -> Cb(th, k[1], e, p) @@ [fr |-> fr, to |-> to] @@ (IF Len(k) > 1 THEN [l |-> k[2]] ELSE <<>>)
    [] k[1] \in {"ex", "en"} -> Cb(th, k[1], e, p) @@ [s |-> k[2], i |-> k[3]]
    [] k[1] = "h" -> Cb(th, "h", e, p) @@ [s |-> k[2], i |-> k[3], x |-> k[4]]
    [] k[1] = "exc" -> Cb(th, "exc", e, p) @@ [x |-> IF k[2] = "F:" THEN "ISE" ELSE k[2], tok |-> TRUE]
    [] k[1] = "un" -> Cb(th, "un", e, p)
Hidden(k) == k[1] \in {"tell", "upd", "fin", "?", "on", "ret"}

\* what thread th may show next
Returns(th) ==
  LET c == CTop(s, th) IN
  CASE c.k = "fire" /\ c.do = "ret" -> {[k |-> "fireR", th |-> th, m |-> 0, f |-> atoi(Inner(th)), r |-> c.r]}
    [] c.k \in {"start", "sis"} /\ (c.rem = <<>> \/ Head(c.rem)[1] = "ret") ->
         LET r == IF c.rem = <<>> THEN "ok" ELSE Head(c.rem)[2] IN
         {IF c.k = "start" THEN [k |-> "startR", th |-> th, m |-> 0, r |-> r]
          ELSE [k |-> "sisR", th |-> th, m |-> 0, s |-> c.s, r |-> r]}
    [] c.k = "stop" /\ c.do = "ret" -> {[k |-> "stopR", th |-> th, m |-> 0, r |-> "ok"]}
    [] c.k = "setl" /\ c.do = "ret" -> {[k |-> "setlR", th |-> th, m |-> 0, r |-> "ok"]}
    [] c.k = "obs" /\ c.v # "?" ->
         {[k |-> "obs", th |-> th, m |-> 0, w |-> c.w, v |-> IF c.w = "q" THEN "" ELSE c.v,
           n |-> IF c.w = "q" THEN atoi(c.v) ELSE 0]}
    [] OTHER -> {}
\* a line of the log in place of a callback
Ln(e) == IF ~Logs(cfg) \/ e.c \notin {"un", "exc", "bef", "aft", "dup"} THEN e
         ELSE [k |-> "ln", th |-> e.th, m |-> 0, c |-> e.c, e |-> e.e, p |-> "*", cur |-> "-", ok |-> TRUE,
               st |-> IF e.c \in {"un", "exc"} THEN s.cur ELSE "-",
               x |-> IF e.c = "exc" THEN e.x ELSE "-", tok |-> TRUE,
               lv |-> CASE e.c \in {"un", "dup"} -> "INFO" [] e.c \in {"bef", "aft"} -> "WARN" [] OTHER -> "ERROR"]
Unc == {[k |-> "ln", th |-> s.dead[i][1], m |-> 0, c |-> "unc", e |-> "-", p |-> "*", cur |-> "-", ok |-> TRUE,
         st |-> "-", x |-> s.dead[i][2], tok |-> TRUE, lv |-> "ERROR"] : i \in DOMAIN s.dead}
Callbacks(th) ==
  LET c == CTop(s, th) IN
  CASE c.k = "none" /\ th = Worker ->
         IF s.w.on /\ ~s.w.open /\ s.w.rem # <<>> /\ ~Hidden(Head(s.w.rem))
         THEN {ScriptCb(th, Head(s.w.rem), s.w.e, s.w.p, s.w.fr, s.w.to)} ELSE {}
    [] c.k = "start" -> IF c.rem # <<>> /\ ~Hidden(Head(c.rem))
                        THEN {ScriptCb(th, Head(c.rem), "IMM", "-", "UNINIT", cfg.init)} ELSE {}
    [] c.k = "fire" /\ c.do \in {"bef", "aft", "dup"} -> {Cb(th, c.do, c.e, c.p)}
    [] c.k = "fire" /\ c.do = "exc" -> {Cb(th, "exc", c.e, c.p) @@ [x |-> "ISE", tok |-> TRUE]}
    [] OTHER -> {}
CbEnds(th) ==
  IF CTop(s, th).k # "cb" THEN {}
  ELSE {[k |-> "cbr", th |-> th, m |-> 0, c |-> Inner(th), r |-> r] :
          r \in {"ok"} \cup (IF exc > 0 THEN {k \o ToString(XNo) : k \in Scope.kinds} ELSE {})}

Show(e) == /\ \E n \in Visible(s, Kf, e) : s' = n
           /\ h' = Append(h, e)
           /\ opn' = [opn EXCEPT ![e.th] = IF e.k = "ln" THEN @ ELSE IF Opens(e) # <<>> THEN @ \o Opens(e) ELSE SubSeq(@, 1, Len(@) - 1)]
           /\ steps' = Append(steps, <<e.th, "v">>)

\* ------------------------------------------------------------------- the steps
Begin == \* a client makes its next call
  /\ ph = "run"
  /\ \E c \in Clients : /\ left[c] > 0 /\ CStk(s, c) = <<>>
                        /\ \E op \in Scope.ops : Show(Call(c, op))
                        /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<cfg, nest, exc, ph>>
BootCall == /\ ph = "boot" /\ h = <<>>
            /\ Show(Call(Boot, Start)) /\ UNCHANGED <<cfg, left, nest, exc, ph>>
Nested == /\ nest > 0 /\ ph = "run"
          /\ \E th \in Threads : CTop(s, th).k = "cb" /\ \E op \in Scope.nops : Show(Call(th, op))
          /\ nest' = nest - 1
          /\ UNCHANGED <<cfg, left, exc, ph>>
Callback == /\ \E th \in Threads : \E e \in {Ln(x) : x \in Callbacks(th)} \cup (IF th = Worker THEN Unc ELSE {}) : Show(e)
            /\ UNCHANGED <<cfg, left, nest, exc, ph>>
Return == /\ \E th \in Threads : \E e \in Returns(th) : Show(e)
          /\ UNCHANGED <<cfg, left, nest, exc, ph>>
CallbackEnd == /\ \E th \in Threads : \E e \in CbEnds(th) :
                    /\ Show(e) /\ exc' = IF e.r = "ok" THEN exc ELSE exc - 1
                    /\ (ph = "boot" => e.r = "ok")
               /\ UNCHANGED <<cfg, left, nest, ph>>
Who(n) == LET D == {th \in DOMAIN s.ca : th \in DOMAIN n.ca /\ n.ca[th] # s.ca[th]} IN
          IF D = {} THEN Worker ELSE CHOOSE th \in D : TRUE
Inside == /\ \E n \in Silent(s, Kf) : s' = n /\ steps' = Append(steps, <<Who(n), "s">>)
          /\ UNCHANGED <<cfg, h, opn, left, nest, exc, ph>>

Idle == /\ s.q = <<>> /\ ~s.w.on /\ s.dead = <<>> /\ DOMAIN s.ca = {}
Quiet(p) == [k |-> "quiet", th |-> 0, ph |-> p, blk |-> <<>>]
Ob(w) == LET v == CASE w = "st" -> IF s.st = "on" THEN "T" ELSE "F" [] w = "en" -> IF s.cur = "END" THEN "T" ELSE "F"
                    [] w = "cur" -> s.cur [] w = "q" -> "" [] OTHER -> "T" IN
         <<[k |-> "obsC", th |-> 0, m |-> 0, w |-> w],
           [k |-> "obs", th |-> 0, m |-> 0, w |-> w, v |-> v, n |-> IF w = "q" THEN Len(s.q) ELSE 0]>>
Close == <<Quiet(0), Quiet(98), Quiet(99)>> \o Ob("st") \o Ob("en") \o Ob("cur") \o Ob("q") \o Ob("ctx")
Booted == /\ ph = "boot" /\ Len(h) > 0 /\ Idle
          /\ ph' = "run" /\ h' = Append(h, Quiet(-1)) /\ UNCHANGED <<cfg, s, opn, steps, left, nest, exc>>
Finish == /\ ph = "run" /\ \A c \in Clients : left[c] = 0
          /\ Idle /\ ~s.un
          /\ ph' = "done" /\ h' = h \o Close /\ UNCHANGED <<cfg, s, opn, steps, left, nest, exc>>

Next == /\ ph # "done" /\ ~s.un
        /\ Begin \/ BootCall \/ Nested \/ Callback \/ Return \/ CallbackEnd \/ Inside \/ Booted \/ Finish
Spec == Init /\ [][Next]_vars
\* the way in which a history came about does not matter
view == <<cfg, s, h, left, nest, exc, ph>>

\* the first alarm of property P on the history
Judge(P) ==
  LET Judge1(a, e) == IF a.bad # {} THEN a
                    ELSE LET n == MonStep(P, a.o, cfg, e)
                         IN [o |-> n, bad |-> Bad(P, a.o, cfg, e, n), i |-> a.i + 1]
  IN FoldLeft(Judge1, [o |-> MonInit(P, cfg, h), bad |-> {}, i |-> 0], h)
Holds == ph = "done" => \A P \in Ps : LET b == Judge(P) IN
                          b.bad = {} \/ (PrintT(<<"FALSEALARM", P, b.i, b.bad>>) /\ FALSE)
\* who is told is somebody who may listen at some time since the last event of the same thread: said again,
\* on the history alone
SetsOf(i) == {c \in 1..(i - 1) : h[c].k = "setlC"}
SetDone(c) == LET R == {i \in (c + 1)..Len(h) : h[i].k = "setlR" /\ h[i].th = h[c].th /\
                       Cardinality({x \in c..i : h[x].th = h[c].th /\ h[x].k = "setlC"}) =
                       Cardinality({x \in c..i : h[x].th = h[c].th /\ h[x].k = "setlR"})}
            IN IF R = {} THEN Len(h) + 1 ELSE Min(R)
MayListen(i) ==
  LET B == {x \in 1..(i - 1) : h[x].th = h[i].th}
      j == IF B = {} THEN 0 ELSE Max(B)
      gone(r) == \E d \in SetsOf(i) : r < d /\ SetDone(d) <= j
  IN {h[c].l : c \in {x \in SetsOf(i) : ~gone(SetDone(x))}} \cup (IF gone(0) THEN {} ELSE {IF cfg.lis THEN 1 ELSE 0})
Told == (ph = "done" /\ Lsv(cfg)) =>
          \A i \in DOMAIN h : h[i].k = "cb" /\ h[i].c \in {"beg", "end"} => h[i].l \in MayListen(i) \ {0}
\* what is logged, said again on the history alone: failures of the handling thread exactly once, with what
\* was thrown, and at most one line for what a call to fire finds
LinesOf(x) == {i \in DOMAIN h : h[i].k = "ln" /\ h[i].x = x}
Stopped == \E i \in DOMAIN h : h[i].k = "stopC"
Logged == (ph = "done" /\ Logs(cfg)) =>
  /\ \A i \in DOMAIN h : h[i].k = "cbr" /\ h[i].th = Worker /\ h[i].r # "ok" =>
       LET L == LinesOf(h[i].r) IN (Cardinality(L) = 1 \/ (Stopped /\ L = {})) /\ \A j \in L : j > i /\ h[j].c = IF IsError(h[i].r) THEN "unc" ELSE "exc"
  /\ \A j \in DOMAIN h : h[j].k = "ln" /\ h[j].x \notin {"-", "ISE"} => \E i \in 1..(j - 1) : h[i].k = "cbr" /\ h[i].r = h[j].x
  /\ \A j \in DOMAIN h : h[j].k = "ln" /\ h[j].th # Worker =>
       \E i \in 1..(j - 1) : /\ h[i].k = "fireC" /\ h[i].th = h[j].th /\ h[i].e = h[j].e
                             /\ \A x \in (i + 1)..(j - 1) : h[x].th # h[j].th
  /\ (~Stopped /\ ~cfg.dd /\ cfg.bound = 0 /\ ~Ending(cfg, cfg.init)) =>
       \A j \in DOMAIN h : h[j].k = "ln" => h[j].c # "dup" /\ (h[j].x = "ISE" => FALSE)
\* nothing gets stuck
Stuck == ph # "done" /\ ~s.un /\ ~ENABLED Next
Live == ~Stuck
Write(x) == Serialize(ToJson(x) \o "\n", File, [format |-> "TXT", charset |-> "UTF-8",
                                                openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == (ph = "done" /\ File # "" /\ (Stride = 1 \/ RandomElement(1..Stride) = 1)) =>
          Write([cfg |-> cfg, h |-> h, steps |-> steps, boot |-> Scope.boot])
=================================================================================
