----------------------------------- MODULE Multi -----------------------------------
(* What the listener that passes notifications on to several consumers does (C15):   *)
(* a set of registered consumers that add and remove change atomically, and            *)
(* notifications that reach every consumer registered throughout, and no consumer      *)
(* registered at no time during it. A state s: reg, the registered consumers; ca, the   *)
(* frames of every thread: calls of add / rem (done, result), notifications (must: the  *)
(* consumers registered throughout so far, may: at some time, got: called, ex: registered *)
(* anew meanwhile, x: what they threw), calls of consumers.                            *)
(* Events: addC c, addR c r, remC c, remR c r, ntC w a, ntR r, dlv c w a, dlvR c r,      *)
(* quiet ph blk.                                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

M0(cfg) == [reg |-> {cfg.init[i] : i \in DOMAIN cfg.init}, ca |-> <<>>]
MStk(s, th) == IF th \in DOMAIN s.ca THEN s.ca[th] ELSE <<>>
MTop(s, th) == LET k == MStk(s, th) IN IF k = <<>> THEN [k |-> "none"] ELSE k[Len(k)]
MPush(s, th, f) == [s EXCEPT !.ca = (th :> Append(MStk(s, th), f)) @@ @]
MPop(s, th) == LET k == MStk(s, th) IN
  [s EXCEPT !.ca = IF Len(k) = 1 THEN [x \in DOMAIN @ \ {th} |-> @[x]] ELSE [@ EXCEPT ![th] = SubSeq(k, 1, Len(k) - 1)]]
MSet(s, th, f) == [s EXCEPT !.ca = [@ EXCEPT ![th] = Append(SubSeq(@, 1, Len(@) - 1), f)]]

\* every notification in progress learns that c is / is not registered any more; a consumer that
\* is registered anew during a notification may be called for that registration as well
Learn(s, c, in) ==
  [s EXCEPT !.ca = [th \in DOMAIN @ |-> [i \in DOMAIN @[th] |->
     LET f == @[th][i] IN
     IF f.k # "nt" THEN f
     ELSE IF in THEN [f EXCEPT !.may = @ \cup {c}, !.ex = IF c \in f.may \ f.must THEN Append(@, c) ELSE @]
     ELSE [f EXCEPT !.must = @ \ {c}]]]]
Without(q, c) == LET i == CHOOSE j \in DOMAIN q : q[j] = c IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* add / remove take effect
MSilent(s) ==
  UNION {LET f == MTop(s, th) IN
         IF f.k \notin {"add", "rem"} THEN {} ELSE IF f.done THEN {}
         ELSE LET was == f.c \in s.reg
                  s1 == MSet(s, th, [f EXCEPT !.done = TRUE, !.r = (was = (f.k = "rem"))])
              IN IF was = (f.k = "add") THEN {s1} ELSE {Learn([s1 EXCEPT !.reg = IF f.k = "add" THEN @ \cup {f.c} ELSE @ \ {f.c}], f.c, f.k = "add")}
         : th \in DOMAIN s.ca}
RECURSIVE MClosure(_, _)
MClosure(S, F) == LET N == (UNION {MSilent(s) : s \in F}) \ S IN IF N = {} THEN S ELSE MClosure(S \cup N, N)

MVisible(s, e) ==
  LET f == MTop(s, e.th) IN
  CASE e.k \in {"addC", "remC"} ->
         {MPush(s, e.th, [k |-> IF e.k = "addC" THEN "add" ELSE "rem", c |-> e.c, done |-> FALSE, r |-> FALSE])}
    [] e.k \in {"addR", "remR"} ->
         IF f.k \in {"add", "rem"} /\ f.done /\ f.c = e.c /\ e.r = (IF f.r THEN "true" ELSE "false") THEN {MPop(s, e.th)} ELSE {}
    [] e.k = "ntC" -> {MPush(s, e.th, [k |-> "nt", w |-> e.w, a |-> e.a, must |-> s.reg, may |-> s.reg, got |-> {}, ex |-> <<>>, x |-> {}])}
    [] e.k = "dlv" ->
         IF f.k = "nt" /\ (e.c \in f.may \ f.got \/ e.c \in {f.ex[i] : i \in DOMAIN f.ex}) /\ e.w = f.w /\ e.a = f.a
         THEN {MPush(MSet(s, e.th, IF e.c \notin f.got THEN [f EXCEPT !.got = @ \cup {e.c}] ELSE [f EXCEPT !.ex = Without(@, e.c)]),
                     e.th, [k |-> "con", c |-> e.c])} ELSE {}
    [] e.k = "dlvR" ->
         LET s1 == MPop(s, e.th)  n == MTop(s1, e.th) IN
         {IF e.r = "ok" THEN s1 ELSE MSet(s1, e.th, [n EXCEPT !.x = @ \cup {e.r}])}
    [] e.k = "ntR" ->
         IF f.k = "nt" /\ f.must \subseteq f.got /\ (IF f.x = {} THEN e.r = "ok" ELSE e.r \in f.x) THEN {MPop(s, e.th)} ELSE {}
    [] e.k = "quiet" -> IF e.blk = <<>> THEN {s} ELSE {}
    [] OTHER -> {s}
MStep(S, e) == UNION {MVisible(s, e) : s \in MClosure(S, S)}
===================================================================================
