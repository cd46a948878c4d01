---------------------------------- MODULE AppMC ----------------------------------
(* Model checking of App.tla: free clients and failing subsystems, as ContractMC.tla  *)
(* does for the contract.                                                            *)
(*   Holds   C16-C19 hold on every history, and none alarms on what App allows        *)
(*   Live    an application at rest is in a lasting state, and only the first start   *)
(*           of one that is not over is still waiting                                 *)
(*   Emit    writes each history with its steps, for replay into the real code        *)
EXTENDS AppProps, Json, IOUtils, SequencesExt
SCOPE == IOEnv.SCOPE
File == IOEnv.OUT
Which == IF "PROPS" \in DOMAIN IOEnv THEN IOEnv.PROPS ELSE "ALL"
Stride == IF "STRIDE" \in DOMAIN IOEnv THEN atoi(IOEnv.STRIDE) ELSE 1
Worker == 10

App(x, n) == [exit |-> x, n |-> n, id |-> 0]
Ops == {"start", "stop", "err", "st"}
\* cl: how many calls each client makes; nest: calls made by subsystems; exc: failures of subsystems
Sc(cfgs, cl, ops, nest, exc) == [cfgs |-> cfgs, cl |-> cl, ops |-> ops, nest |-> nest, exc |-> exc, int |-> FALSE]
Ints(sc) == [sc EXCEPT !.int = TRUE]
Both(n) == {App(TRUE, n), App(FALSE, n)}
Scope ==
  CASE SCOPE = "app-one" -> Sc(Both(0) \cup Both(1), <<1, 1>>, Ops, 0, 1)
    [] SCOPE = "app-fail" -> Sc(Both(2), <<1, 1>>, {"start", "stop"}, 0, 2)
    [] SCOPE = "app-inner" -> Sc(Both(1) \cup {App(FALSE, 2)}, <<1>>, {"start"}, 3, 1)
    [] SCOPE = "app-err" -> Sc({App(FALSE, 0)}, <<1, 2>>, {"start", "err"}, 0, 0)
    [] SCOPE = "app-starts" -> Sc(Both(0), <<1, 1, 1>>, {"start"}, 0, 0)
    [] SCOPE = "app-int" -> Ints(Sc({App(FALSE, 0)}, <<1, 1, 1>>, {"start"}, 0, 0))
    [] SCOPE = "app-int0" -> Ints(Sc(Both(0), <<1, 1>>, {"start", "stop"}, 0, 0))
    [] SCOPE = "app-int1" -> Ints(Sc(Both(1), <<1>>, {"start"}, 2, 1))
    \* larger ones
    [] SCOPE = "app-two" -> Sc(Both(0), <<1, 2>>, Ops, 0, 0)
    [] SCOPE = "app-three" -> Sc(Both(1), <<1, 2>>, {"start", "stop", "err"}, 0, 1)
    [] SCOPE = "app-fail2" -> Sc(Both(2), <<1, 2>>, {"start", "stop"}, 0, 2)
    [] SCOPE = "app-starts2" -> Sc(Both(0), <<1, 1, 1>>, {"start", "stop"}, 0, 0)
    [] SCOPE = "app-int2" -> Ints(Sc(Both(0), <<1, 1, 1>>, {"start", "stop"}, 0, 0))
    [] SCOPE = "app-int3" -> Ints(Sc(Both(1), <<1, 1>>, Ops, 1, 0))
    [] SCOPE = "app-err2" -> Sc(Both(1), <<1, 2>>, {"start", "err"}, 0, 0)
    [] SCOPE = "app-long" -> Sc({App(FALSE, 1)}, <<1, 3>>, {"start", "stop", "err"}, 0, 0)
    [] SCOPE = "app-inner2" -> Sc(Both(1), <<1, 1>>, {"start", "stop"}, 2, 1)
    [] SCOPE = "app-walk" -> Ints(Sc(Both(2) \cup Both(1), <<2, 5, 3>>, Ops, 3, 2))

Ps == IF Which = "ALL" THEN {"C16", "C17", "C18", "C19"} ELSE IF Which = "NONE" THEN {} ELSE {Which}

VARIABLES cfg, s, h, steps, left, nest, exc, done
vars == <<cfg, s, h, steps, left, nest, exc, done>>
Kf == cfg @@ [mode |-> "full"]
Clients == {i + 1 : i \in DOMAIN Scope.cl}
Threads == Clients \cup {Worker}

Init == /\ cfg \in Scope.cfgs
        /\ s = A0 /\ h = <<>> /\ steps = <<>> /\ done = FALSE
        /\ left = [c \in Clients |-> Scope.cl[c - 1]]
        /\ nest = Scope.nest /\ exc = Scope.exc
XNo == Cardinality({i \in DOMAIN h : h[i].k = "subR" /\ h[i].r # "ok"}) + 1
Ev(k, th) == [k |-> k, th |-> th, m |-> 0]
Show(e) == /\ \E n \in AVisible(s, Kf, e) : s' = n
           /\ h' = Append(h, e) /\ steps' = Append(steps, <<e.th, "v">>)

\* the client that has been in its start() for longest
Starter == LET W == {c \in Clients : ATop(s, c).k = "start"}
               at(c) == CHOOSE i \in DOMAIN h : h[i].th = c /\ h[i].k = "startC" /\ \A j \in DOMAIN h : h[j].th = c /\ h[j].k = "startC" => j <= i
           IN CHOOSE c \in W : \A d \in W : at(c) <= at(d)
Interrupt == /\ Scope.int /\ (\E c \in Clients : ATop(s, c).k = "start")
             /\ \/ \E c \in Clients : /\ left[c] > 0 /\ AStk(s, c) = <<>> /\ Show(Ev("int", c) @@ [w |-> Starter])
                                     /\ left' = [left EXCEPT ![c] = @ - 1] /\ nest' = nest
                \/ /\ nest > 0 /\ ATop(s, Worker).k = "sub" /\ Show(Ev("int", Worker) @@ [w |-> Starter])
                   /\ nest' = nest - 1 /\ left' = left
             /\ UNCHANGED <<cfg, exc, done>>
Begin == /\ \E c \in Clients : /\ left[c] > 0 /\ AStk(s, c) = <<>>
                               /\ \E op \in Scope.ops : Show(Ev(op \o "C", c))
                               /\ left' = [left EXCEPT ![c] = @ - 1]
         /\ UNCHANGED <<cfg, nest, exc, done>>
Nested == /\ nest > 0
          /\ ATop(s, Worker).k = "sub" /\ \E op \in Ops : Show(Ev(op \o "C", Worker))
          /\ nest' = nest - 1
          /\ UNCHANGED <<cfg, left, exc, done>>
Returns(th) ==
  LET c == ATop(s, th) IN
  IF c.k \notin {"start", "stop", "err", "st"} THEN {} ELSE IF c.do # "ret" THEN {}
  ELSE {IF c.k = "st" THEN Ev("st", th) @@ [v |-> c.r] ELSE Ev(c.k \o "R", th) @@ [r |-> c.r] @@ (IF c.k = "start" THEN [in |-> th \in s.it] ELSE <<>>)}
Note(k, th, f, e, t) == Ev(k, th) @@ [fr |-> f, e |-> e, to |-> t, cur |-> s.cur]
Calls(th) ==
  LET c == ATop(s, th) IN
  IF c.k = "start" THEN (IF c.do \in {"beg", "end"} THEN {Note(c.do, th, "_UNINITIALISED_", "_immediate_", "UNINITIALISED")} ELSE {})
  ELSE IF c.k = "none" /\ th = Worker /\ s.w.on /\ s.w.rem # <<>>
  THEN LET k == Head(s.w.rem) IN
       CASE k[1] \in {"beg", "end"} -> {Note(k[1], th, s.w.fr, s.w.e, s.w.to)}
         [] k[1] = "sub" -> {Ev("subC", th) @@ [w |-> k[2], i |-> k[3], ok |-> TRUE, cur |-> s.cur]}
         [] OTHER -> {}
  ELSE {}
Visibly == /\ \E th \in Threads : \E e \in Returns(th) \cup Calls(th) : Show(e)
           /\ UNCHANGED <<cfg, left, nest, exc, done>>
LastSub == LET I == {i \in DOMAIN h : h[i].k = "subC"} IN h[CHOOSE i \in I : \A j \in I : j <= i]
SubEnds == /\ ATop(s, Worker).k = "sub"
           /\ \E r \in {"ok"} \cup (IF exc > 0 THEN {"X" \o ToString(XNo)} ELSE {}) :
                /\ Show(Ev("subR", Worker) @@ [w |-> LastSub.w, i |-> LastSub.i, r |-> r])
                /\ exc' = IF r = "ok" THEN exc ELSE exc - 1
           /\ UNCHANGED <<cfg, left, nest, done>>
Who(n) == LET D == {th \in DOMAIN s.ca : th \in DOMAIN n.ca /\ n.ca[th] # s.ca[th]} IN
          IF D = {} THEN Worker ELSE CHOOSE th \in D : TRUE
Inside == /\ \E n \in ASilent(s, Kf) : s' = n /\ steps' = Append(steps, <<Who(n), "s">>)
          /\ UNCHANGED <<cfg, h, left, nest, exc, done>>

Waits(c) == ATop(s, c).k = "start" /\ ATop(s, c).do = "wait"
AtRest == s.q = <<>> /\ ~s.w.on /\ (\A c \in Clients : (AStk(s, c) = <<>> /\ left[c] = 0) \/ (Waits(c) /\ ~s.latch /\ c \notin s.it))
Quiet(p) == [k |-> "quiet", th |-> 0, ph |-> p, blk |-> SetToSeq({c \in Clients : Waits(c)})]
Close == <<Quiet(0), Quiet(98), Quiet(99), Ev("stC", 0), Ev("st", 0) @@ [v |-> s.cur]>>
Finish == /\ AtRest
          /\ done' = TRUE /\ h' = h \o Close /\ UNCHANGED <<cfg, s, steps, left, nest, exc>>
Next == ~done /\ (Begin \/ Interrupt \/ Nested \/ Visibly \/ SubEnds \/ Inside \/ Finish)
Spec == Init /\ [][Next]_vars
view == <<cfg, s, h, left, nest, exc, done>>

Known == {"stale-completion"}
Judge(P) ==
  LET Judge1(a, e) == IF a.bad # {} THEN a
                    ELSE LET n == AMon(P, a.o, cfg, e)
                         IN [o |-> n, bad |-> ABad(P, a.o, cfg, e, n) \ Known, i |-> a.i + 1]
  IN FoldLeft(Judge1, [o |-> AInit(P, cfg), bad |-> {}, i |-> 0], h)
Holds == done => \A P \in Ps : LET b == Judge(P) IN b.bad = {} \/ (PrintT(<<"FALSEALARM", P, b.i, b.bad>>) /\ FALSE)
Stuck == ~done /\ ~ENABLED Next
Live == /\ ~Stuck
        /\ done => /\ s.cur \in {"NULL", "STARTED", "STOPPED", "_END_"}
                   /\ (cfg.exit => s.cur # "STOPPED")
                   /\ s.latch = (s.cur = "_END_")
                   /\ Cardinality({c \in Clients : Waits(c)}) <= (IF s.on /\ ~s.latch THEN 1 ELSE 0)
                   /\ (~Scope.int => (s.on /\ ~s.latch => \E c \in Clients : Waits(c)))
Write(x) == Serialize(ToJson(x) \o "\n", File, [format |-> "TXT", charset |-> "UTF-8",
                                                openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == (done /\ File # "" /\ (Stride = 1 \/ RandomElement(1..Stride) = 1)) =>
          Write([kind |-> "app", cfg |-> cfg, h |-> h, steps |-> steps])
==================================================================================
