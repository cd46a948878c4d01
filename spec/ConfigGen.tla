--------------------------------- MODULE ConfigGen ---------------------------------
(* Explores the configurations and writes, for each, what the code has to do with it.  *)
(* path: the calls that lead to it; no / ok: the calls refused and accepted there, with *)
(* the configuration an accepted one leads to; start: whether it can be started; comp:  *)
(* the calls that complete it; probe: what every event does in every configured state   *)
(* once it is complete; now: the same as it is, if it can be started.                   *)
EXTENDS Config, Json, IOUtils
File == IOEnv.OUT
MaxMap == atoi(IOEnv.MAXMAP)
Depth == atoi(IOEnv.DEPTH)      \* 0: every configuration; else random walks of that length
VARIABLES c, path
vars == <<c, path>>

Key(d) == d.init \o "|" \o d.ms \o "|" \o d.me \o "|" \o
          FoldLeft(\o, "", [i \in 1..Cardinality(States) |->
             LET s == SetToSeq(States)[i] IN
             (IF s \in d.cf THEN "+" ELSE ".") \o (IF d.imm[s] THEN "!" ELSE ".") \o
             FoldLeft(\o, "", [j \in 1..Cardinality(AllEvents) |-> d.tab[s][SetToSeq(AllEvents)[j]]])])
Spec1(d) == {op \in Ops : ~Unspecified(d, op)}
Probes(d) == {<<s, e, Outcome(d, s, e)[1], Outcome(d, s, e)[2]>> : s \in {x \in d.cf : ~d.imm[x]}, e \in AllEvents}
Line(d, p) ==
  LET ok == {op \in Spec1(d) : Accepts(d, op)}
      full == Run(d, Completion(d))
  IN [key |-> Key(d), path |-> p, no |-> SetToSeq(Spec1(d) \ ok),
      ok |-> SetToSeq({<<op[1], op[2], Key(Apply(d, op))>> : op \in ok}),
      start |-> Startable(d), cf |-> SetToSeq(d.cf), comp |-> Completion(d), probe |-> SetToSeq(Probes(full)),
      now |-> IF Startable(d) THEN SetToSeq(Probes(d)) ELSE <<>>,
      init |-> full.init, first |-> OnStart(full)]
Write(x) == Serialize(ToJson(x) \o "\n", File, [format |-> "TXT", charset |-> "UTF-8",
                                                openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Count(d) == Cardinality({p \in States \X AllEvents : d.tab[p[1]][p[2]] # "-"})

Init == c = C0 /\ path = <<>>
Next == \E op \in Spec1(c) :
          LET a == Accepts(c, op)
              d == IF a THEN Apply(c, op) ELSE c IN
          /\ c' = d
          /\ path' = Append(path, <<op[1], op[2], IF a THEN "ok" ELSE "no">>)
          /\ Depth = 0 => a /\ Count(d) <= MaxMap /\ (op[1] = "init" => op[2] = CHOOSE s \in States : TRUE)
          /\ Depth > 0 => Len(path) < Depth
Spec == Init /\ [][Next]_vars
view == IF Depth = 0 THEN <<c>> ELSE <<c, path>>
Inv == TypeOK(c) /\ CompletionWorks(c)
Emit == (Depth = 0 \/ Len(path) = Depth) => Write(Line(c, path))
Keeps == [][Kept(c, c')]_vars
==================================================================================
