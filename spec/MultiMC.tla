--------------------------------- MODULE MultiMC ---------------------------------
(* Model checking of Multi.tla: free clients that notify, add and remove, consumers    *)
(* that fail or call back, as ContractMC.tla does for the contract.                   *)
(*   Holds   C15, stated on histories alone, holds on every one                        *)
(*   Live    every call can return                                                    *)
(*   Emit    writes each history with its steps, for replay into the real code        *)
(* Consumers are called in the order of their numbers: the replay gives the consumers  *)
(* hashes that make the listener do so; other orders only rename the consumers.        *)
EXTENDS Multi, Json, IOUtils, SequencesExt
SCOPE == IOEnv.SCOPE
File == IOEnv.OUT
Stride == IF "STRIDE" \in DOMAIN IOEnv THEN atoi(IOEnv.STRIDE) ELSE 1

Cfg(n, init) == [n |-> n, init |-> init, id |-> 0]
Add(c) == [t |-> "add", c |-> c]
Rem(c) == [t |-> "rem", c |-> c]
Nb == [t |-> "nb", c |-> 0]
Ne == [t |-> "ne", c |-> 0]
Muts(C) == {Add(c) : c \in C} \cup {Rem(c) : c \in C}
Sc(cfgs, cl, ops, nest, nops, exc) == [cfgs |-> cfgs, cl |-> cl, ops |-> ops, nest |-> nest, nops |-> nops, exc |-> exc]
Scope ==
  CASE SCOPE = "multi-seq" -> Sc({Cfg(2, <<>>), Cfg(2, <<0>>), Cfg(2, <<0, 1>>)}, <<4>>, Muts({0, 1}) \cup {Nb, Ne}, 0, {}, 0)
    [] SCOPE = "multi-race" -> Sc({Cfg(2, <<0>>), Cfg(2, <<0, 1>>)}, <<1, 1>>, Muts({0, 1}) \cup {Nb}, 0, {}, 0)
    [] SCOPE = "multi-regs" -> Sc({Cfg(1, <<>>), Cfg(1, <<0>>)}, <<2, 2>>, Muts({0}), 0, {}, 0)
    [] SCOPE = "multi-inner" -> Sc({Cfg(3, <<0, 1>>)}, <<1>>, {Nb}, 2, Muts({0, 1, 2}) \cup {Ne}, 0)
    [] SCOPE = "multi-fail" -> Sc({Cfg(3, <<0, 1, 2>>)}, <<2>>, {Nb, Rem(1)}, 0, {}, 3)
    \* larger ones
    [] SCOPE = "multi-race2" -> Sc({Cfg(2, <<0>>), Cfg(2, <<0, 1>>)}, <<1, 2>>, Muts({0, 1}) \cup {Nb}, 0, {}, 0)
    [] SCOPE = "multi-inner2" -> Sc({Cfg(2, <<0>>), Cfg(2, <<0, 1>>)}, <<1, 1>>, {Nb, Add(1), Rem(0)}, 1, Muts({0, 1}) \cup {Ne}, 1)
    [] SCOPE = "multi-walk" -> Sc({Cfg(3, <<0>>), Cfg(3, <<0, 1, 2>>)}, <<3, 3, 3>>, Muts({0, 1, 2}) \cup {Nb, Ne}, 3, Muts({0, 1, 2}) \cup {Nb}, 2)

VARIABLES cfg, s, h, steps, left, nest, exc, done
vars == <<cfg, s, h, steps, left, nest, exc, done>>
Threads == {i + 1 : i \in DOMAIN Scope.cl}
Init == /\ cfg \in Scope.cfgs
        /\ s = M0(cfg) /\ h = <<>> /\ steps = <<>> /\ done = FALSE
        /\ left = [c \in Threads |-> Scope.cl[c - 1]]
        /\ nest = Scope.nest /\ exc = Scope.exc
XNo == Cardinality({i \in DOMAIN h : h[i].k = "dlvR" /\ h[i].r # "ok"}) + 1
NNo == Cardinality({i \in DOMAIN h : h[i].k = "ntC"})
Ev(k, th) == [k |-> k, th |-> th, m |-> 0]
Call(th, op) ==
  CASE op.t = "add" -> Ev("addC", th) @@ [c |-> op.c]
    [] op.t = "rem" -> Ev("remC", th) @@ [c |-> op.c]
    [] OTHER -> Ev("ntC", th) @@ [w |-> op.t, a |-> <<NNo % 2, (NNo \div 2) % 2, (NNo \div 4) % 2>>]
Show(e) == /\ \E n \in MVisible(s, e) : s' = n
           /\ h' = Append(h, e) /\ steps' = Append(steps, <<e.th, "v">>)
Begin == /\ \E c \in Threads : /\ left[c] > 0 /\ MStk(s, c) = <<>>
                               /\ \E op \in Scope.ops : Show(Call(c, op))
                               /\ left' = [left EXCEPT ![c] = @ - 1]
         /\ UNCHANGED <<cfg, nest, exc, done>>
Nested == /\ nest > 0
          /\ \E th \in Threads : MTop(s, th).k = "con" /\ \E op \in Scope.nops : Show(Call(th, op))
          /\ nest' = nest - 1 /\ UNCHANGED <<cfg, left, exc, done>>
Shows(th) ==
  LET f == MTop(s, th) IN
  CASE f.k \in {"add", "rem"} /\ f.done -> {Ev(f.k \o "R", th) @@ [c |-> f.c, r |-> IF f.r THEN "true" ELSE "false"]}
    [] f.k = "nt" -> {Ev("ntR", th) @@ [r |-> r] : r \in (IF f.x = {} THEN {"ok"} ELSE f.x)}
                     \cup {Ev("dlv", th) @@ [c |-> c, w |-> f.w, a |-> f.a] : c \in {c \in f.may \ f.got : (\A d \in f.got : d < c) /\ (\A d \in f.must \ f.got : c <= d)}}
    [] OTHER -> {}
Visibly == /\ \E th \in Threads : \E e \in Shows(th) : Show(e)
           /\ UNCHANGED <<cfg, left, nest, exc, done>>
Ends == /\ \E th \in Threads :
             /\ MTop(s, th).k = "con"
             /\ \E r \in {"ok"} \cup (IF exc > 0 THEN {"X" \o ToString(XNo)} ELSE {}) :
                  /\ Show(Ev("dlvR", th) @@ [c |-> MTop(s, th).c, r |-> r])
                  /\ exc' = IF r = "ok" THEN exc ELSE exc - 1
        /\ UNCHANGED <<cfg, left, nest, done>>
Inside == /\ \E n \in MSilent(s) : s' = n /\ steps' = Append(steps, <<CHOOSE th \in DOMAIN s.ca : MStk(n, th)[Len(MStk(n, th))] # MTop(s, th) /\ MTop(s, th).k \in {"add", "rem"}, "s">>)
          /\ UNCHANGED <<cfg, h, left, nest, exc, done>>
Quiet(p) == [k |-> "quiet", th |-> 0, ph |-> p, blk |-> <<>>]
Finish == /\ DOMAIN s.ca = {} /\ \A c \in Threads : left[c] = 0
          /\ done' = TRUE /\ h' = h \o <<Quiet(0), Quiet(98), Quiet(99)>> /\ UNCHANGED <<cfg, s, steps, left, nest, exc>>
Next == ~done /\ (Begin \/ Nested \/ Visibly \/ Ends \/ Inside \/ Finish)
Spec == Init /\ [][Next]_vars
view == <<cfg, s, h, left, nest, exc, done>>

\* ------------------------------------------------- C15 on a history alone
\* the event that ends the call / notification / consumer begun at i
RECURSIVE Close(_, _, _)
Close(i, j, d) == LET d1 == IF h[j].th # h[i].th THEN d ELSE IF h[j].k \in {"addC", "remC", "ntC", "dlv"} THEN d + 1 ELSE d - 1 IN
                  IF d1 = 0 THEN j ELSE Close(i, j + 1, d1)
End(i) == Close(i, i, 0)
\* the consumers notification i reached directly
RECURSIVE Dlv(_, _, _, _)
Dlv(i, j, d, acc) ==
  LET d1 == IF h[j].th # h[i].th THEN d ELSE IF h[j].k \in {"addC", "remC", "ntC", "dlv"} THEN d + 1 ELSE d - 1
      a1 == IF h[j].th = h[i].th /\ h[j].k = "dlv" /\ d1 = 2 THEN Append(acc, j) ELSE acc
  IN IF d1 = 0 THEN a1 ELSE Dlv(i, j + 1, d1, a1)
Reach(i) == Dlv(i, i, 0, <<>>)
Con == 0..(cfg.n - 1)
Chg(c) == {i \in DOMAIN h : h[i].k \in {"addC", "remC"} /\ h[i].c = c}
At0(c) == \E i \in DOMAIN cfg.init : cfg.init[i] = c
Ok(i) == h[End(i)].r = "true"
\* c was certainly registered when the notification i began, and nobody began to remove it before it ended
Throughout(c, i) ==
  /\ \A k \in Chg(c) : h[k].k = "remC" => (k > End(i) \/ (End(k) < i /\ ~Ok(k)) \/ \E a \in Chg(c) : h[a].k = "addC" /\ a > End(k) /\ End(a) < i)
  /\ At0(c) \/ \E a \in Chg(c) : h[a].k = "addC" /\ End(a) < i
\* c may have been registered at some time during notification i up to event j
Sometime(c, i, j) ==
  \/ \E a \in Chg(c) : h[a].k = "addC" /\ a < j /\ ~\E k \in Chg(c) : h[k].k = "remC" /\ k > End(a) /\ End(k) < i
  \/ At0(c) /\ ~\E k \in Chg(c) : h[k].k = "remC" /\ End(k) < i
C15 == /\ \A i \in DOMAIN h : h[i].k = "ntC" =>
            LET R == Reach(i) IN
            /\ \A c \in Con : Throughout(c, i) => Cardinality({q \in DOMAIN R : h[R[q]].c = c}) = 1
            /\ \A q \in DOMAIN R : Sometime(h[R[q]].c, i, R[q]) /\ h[R[q]].a = h[i].a /\ h[R[q]].w = h[i].w
            /\ LET X == {h[End(R[q])].r : q \in DOMAIN R} \ {"ok"} IN
               IF X = {} THEN h[End(i)].r = "ok" ELSE h[End(i)].r \in X
       \* calls that succeed alternate: in the end the registered are those added more often than removed
       /\ \A c \in Con : Cardinality({k \in Chg(c) : h[k].k = "addC" /\ Ok(k)}) + (IF At0(c) THEN 1 ELSE 0)
                          - Cardinality({k \in Chg(c) : h[k].k = "remC" /\ Ok(k)}) = (IF c \in s.reg THEN 1 ELSE 0)
Holds == done => C15 \/ (PrintT(<<"FALSEALARM", "C15", 0, {}>>) /\ FALSE)
Live == done \/ ENABLED Next
Write(x) == Serialize(ToJson(x) \o "\n", File, [format |-> "TXT", charset |-> "UTF-8",
                                                openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Emit == (done /\ File # "" /\ (Stride = 1 \/ RandomElement(1..Stride) = 1)) =>
          Write([kind |-> "multi", cfg |-> cfg, h |-> h, steps |-> steps])
==================================================================================
