------------------------------- MODULE GenLoop -------------------------------
(* Programs for bare event loops: threads that queue tasks, tasks that queue  *)
(* tasks (n = a + 4 b: queue a tasks, each of which does the same with b), a   *)
(* thread that stops the loops. FOCUS "enum": small programs whose schedules   *)
(* are enumerated up to a number of preemptions; "rand": larger ones.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Focus == IOEnv.FOCUS
Tier == IOEnv.TIER
VARIABLES phase, sc
gvars == <<phase, sc>>

Pick(s) == s[RandomElement(1..Len(s))]
Rnd(k) == RandomElement(1..k)
Coin(k) == RandomElement(1..k) = 1
RECURSIVE Rep(_, _)
Rep(F(_), k) == IF k = 0 THEN << >> ELSE <<F(k)>> \o Rep(F, k - 1)

Init == phase = "cfg" /\ sc = << >>

Nest(x) == IF Focus = "enum" THEN Pick(<<0, 0, 0, 1, 1, 2>>) ELSE Pick(<<0, 0, 0, 1, 2, 3, 5, 6, 9, 21>>)
Op1(nl, stop) == IF stop /\ Coin(3) THEN [o |-> "stop", l |-> 0, n |-> 0] ELSE [o |-> "task", l |-> Rnd(nl) - 1, n |-> Nest(nl)]

Choose ==
  /\ phase = "cfg"
  /\ \E nl \in {IF Focus = "enum" THEN Pick(<<1, 1, 1, 2>>) ELSE Pick(<<1, 1, 2, 3>>)}, stop \in {Coin(3)},
        nt \in {IF Focus = "enum" THEN Pick(<<1, 2, 2, 2, 3>>) ELSE 1 + Rnd(3)}, pre \in {Coin(3)}, fine \in {Coin(3)} :
       \E k \in {IF Focus = "enum" THEN (IF nt = 3 THEN 1 ELSE 2) ELSE Rnd(4)},
          tq \in {Pick(<<1, 1, 2, 4, 1024>>)}, me \in {Pick(<<0, 1, 2>>)} :
          sc' = [ cfg |-> [loops |-> nl, tq |-> tq, maxev |-> me], fine |-> fine,
                  bound |-> IF Tier = "thorough" THEN (IF fine THEN 3 ELSE 5) ELSE (IF fine THEN 1 ELSE 2),
                  limit |-> IF Focus # "enum" THEN 0 ELSE IF Tier = "thorough" THEN 20000 ELSE 1000,
                  steps |-> IF pre THEN << Rep(LAMBDA i : Op1(nl, FALSE), Rnd(2)) >> ELSE << >>,
                  par |-> Rep(LAMBDA i : Rep(LAMBDA j : Op1(nl, stop), k), nt) ]
  /\ phase' = "print"

Finish ==
  /\ phase = "print"
  /\ \E seed \in {Rnd(100000000)}, pol \in {Pick(<<"rand", "pct", "stick">>)} :
       PrintT("SCN " \o ToJson(sc @@ [ kind |-> "loop", seed |-> seed, mode |-> "sched", policy |-> IF Focus = "enum" THEN "enum" ELSE pol ]))
  /\ phase' = "done" /\ UNCHANGED sc

Next == Choose \/ Finish
Spec == Init /\ [][Next]_gvars
=============================================================================
