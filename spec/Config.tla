---------------------------------- MODULE Config ----------------------------------
(* The fluent configuration of a machine: which calls are accepted, what they do to *)
(* the configuration, and what a machine with that configuration does (C14).        *)
(*                                                                                  *)
(* A configuration c: init, the initial state ("" if none); ms / me, the state and  *)
(* event being configured ("" if none); tab[s][e], the outcome of event e in state  *)
(* s: "-" nothing, "?" received but without outcome, a state, "E" ends, "N" does    *)
(* not transition; imm[s], whether s ends the machine immediately; cf, the states   *)
(* that have been configured.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS States, Events, Spare
Reserved == {"_UNINITIALISED_", "_END_", "_NOOP_"}
ReservedEvent == "_immediate_"
AllEvents == Events \cup {Spare}

C0 == [init |-> "", ms |-> "", me |-> "", tab |-> [s \in States |-> [e \in AllEvents |-> "-"]],
       imm |-> [s \in States |-> FALSE], cf |-> {}]
Ops == ({"init", "when", "to"} \X (States \cup Reserved)) \cup ({"rcv"} \X (Events \cup {ReservedEvent}))
       \cup {<<"end", "">>, <<"noop", "">>}

Mapped(c, s) == \E e \in AllEvents : c.tab[s][e] # "-"
Open(c) == c.ms # "" /\ c.me # "" /\ c.tab[c.ms][c.me] = "?"
Accepts(c, op) ==
  CASE op[1] = "init" -> op[2] \notin Reserved /\ c.init = ""
    [] op[1] = "when" -> op[2] \notin Reserved /\ c.init # "" /\ c.ms = ""
    [] op[1] = "rcv" -> op[2] # ReservedEvent /\ c.ms # ""
    [] op[1] = "to" -> op[2] \notin Reserved /\ Open(c)
    [] op[1] = "noop" -> Open(c)
    [] op[1] = "end" -> IF c.ms = "" THEN FALSE
                        ELSE IF c.me = "" THEN ~Mapped(c, c.ms) /\ ~c.imm[c.ms] ELSE Open(c)
\* left open: a state that already ends immediately made to end immediately again
Unspecified(c, op) == op[1] = "end" /\ c.ms # "" /\ c.me = "" /\ c.imm[c.ms] /\ ~Mapped(c, c.ms)

Out(c, v) == [c EXCEPT !.tab = [@ EXCEPT ![c.ms] = [@ EXCEPT ![c.me] = v]], !.ms = "", !.me = ""]
Apply(c, op) ==
  CASE op[1] = "init" -> [c EXCEPT !.init = op[2], !.ms = op[2], !.cf = @ \cup {op[2]}]
    [] op[1] = "when" -> [c EXCEPT !.ms = op[2], !.cf = @ \cup {op[2]}]
    [] op[1] = "rcv" -> [c EXCEPT !.me = op[2], !.tab = [@ EXCEPT ![c.ms] = [@ EXCEPT ![op[2]] = IF @ = "-" THEN "?" ELSE @]]]
    [] op[1] = "to" -> Out(c, op[2])
    [] op[1] = "noop" -> Out(c, "N")
    [] op[1] = "end" -> IF c.me = "" THEN [c EXCEPT !.imm = [@ EXCEPT ![c.ms] = TRUE], !.ms = ""] ELSE Out(c, "E")

Pending(c) == {p \in States \X AllEvents : c.tab[p[1]][p[2]] = "?"}
Startable(c) == c.init # "" /\ Pending(c) = {}

\* what a machine does that is in state s and receives e: target ("-" unmapped), state after it
Outcome(c, s, e) ==
  LET v == c.tab[s][e] IN
  CASE v = "-" -> <<"-", s>> [] v = "N" -> <<"_NOOP_", s>> [] v = "E" -> <<"_END_", "_END_">>
    [] OTHER -> <<v, IF c.imm[v] \/ v \notin c.cf THEN "_END_" ELSE v>>
OnStart(c) == IF c.imm[c.init] THEN "_END_" ELSE c.init

\* calls that lead from c to a configuration that can be started
RECURSIVE Run(_, _)
Run(c, ops) == IF ops = <<>> THEN c ELSE Run(Apply(c, Head(ops)), Tail(ops))
Completion(c) ==
  LET a == IF c.init = "" THEN <<<<"init", CHOOSE s \in States : TRUE>>>> ELSE <<>>
      c1 == Run(c, a)
      b == IF c1.ms = "" THEN <<>> ELSE <<<<"rcv", Spare>>, <<"end", "">>>>
      c2 == Run(c1, b)
      P == SetToSeq(Pending(c2))
  IN a \o b \o FlattenSeq([i \in DOMAIN P |-> <<<<"when", P[i][1]>>, <<"rcv", P[i][2]>>, <<"end", "">>>>])

\* ------------------------------------------------- what is true of every configuration
TypeOK(c) == /\ c.init \in States \cup {""} /\ c.ms \in c.cf \cup {""} /\ c.me \in AllEvents \cup {""}
             /\ c.cf \subseteq States /\ (c.init = "" <=> c.cf = {}) /\ c.init \in c.cf \cup {""}
             /\ (c.me # "" => c.ms # "" /\ c.tab[c.ms][c.me] # "-")
             /\ \A s \in States \ c.cf : ~Mapped(c, s) /\ ~c.imm[s]
RECURSIVE AllAccepted(_, _)
AllAccepted(c, ops) == ops = <<>> \/ (Accepts(c, Head(ops)) /\ AllAccepted(Apply(c, Head(ops)), Tail(ops)))
CompletionWorks(c) == AllAccepted(c, Completion(c)) /\ Startable(Run(c, Completion(c)))
\* an accepted mapping is never lost or changed
Kept(c, d) == /\ c.init # "" => d.init = c.init
              /\ \A s \in States : /\ c.imm[s] => d.imm[s]
                                   /\ \A e \in AllEvents : c.tab[s][e] \notin {"-", "?"} => d.tab[s][e] = c.tab[s][e]
==================================================================================
