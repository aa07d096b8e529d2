------------------------------- MODULE Behave -------------------------------
(* Random behaviours of Repl, printed for the driver of the implementation. *)
EXTENDS Repl

Rounds == atoi(IOEnv.ROUNDS)
Length == atoi(IOEnv.LENGTH)

VARIABLE n
BInit == Init /\ n = 0

(* Kinds of actions are equally likely, whatever the number of actions of each. *)
Kinds2 == <<"op", "op", "op", "refuse", "pause", "unpause", "snap", "deliver", "deliver", "cut", "failover">>
KindOf(a) == IF a.a = "op" THEN (IF a.fail < 0 THEN "op" ELSE "refuse") ELSE a.a

Choose ==
  LET acts == Acts
      k == Kinds2[RandomElement(1..Len(Kinds2))]
      hits == {i \in DOMAIN acts : KindOf(acts[i]) = k}
  IN acts[RandomElement(IF hits = {} THEN DOMAIN acts ELSE hits)]

BNext ==
  /\ n < Rounds * Length
  /\ n' = n + 1
  /\ IF n % Length = 0
       THEN s' = Start /\ PrintT(<<"BEGIN", n>>)
       ELSE \E a \in {Choose} : s' = Apply(a) /\ PrintT(<<"ACT", ToJson(a)>>)

BSpec == BInit /\ [][BNext]_<<s, n>>
=============================================================================
