-------------------------------- MODULE GenKv --------------------------------
(* Programs for the key-value context: threads of Set, Get and Delete on few *)
(* keys of few connections. FOCUS says how they are to be run: "rand" (random *)
(* schedules), "enum" (every schedule with few preemptions), "real" (threads  *)
(* that really race).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Focus == IOEnv.FOCUS
Tier == IOEnv.TIER
VARIABLES phase, thr, n
gvars == <<phase, thr, n>>

Pick(s) == s[RandomElement(1..Len(s))]
Rnd(k) == RandomElement(1..k)
Coin(k) == RandomElement(1..k) = 1
RECURSIVE Rep(_, _)
Rep(F(_), k) == IF k = 0 THEN << >> ELSE <<F(k)>> \o Rep(F, k - 1)

Init == phase = "cfg" /\ thr = << >> /\ n = 0

\* keys and connections of this scenario
Op1(nk, nc, bias) ==
  LET o == Pick(bias) IN
  [o |-> o, c |-> Rnd(nc), l |-> Rnd(nk) - 1, n |-> IF o = "set" /\ Coin(8) THEN 1 ELSE 0]   \* n = 1: a nil value

Bias == << <<"set", "get", "del">>, <<"set", "set", "get">>, <<"set", "get", "get", "del">>, <<"set", "del">> >>

Choose ==
  /\ phase = "cfg"
  /\ \E nt \in {IF Focus = "enum" THEN Pick(<<2, 2, 2, 3>>) ELSE Pick(<<2, 2, 3, 3, 4>>)},
        nk \in {Pick(<<1, 1, 2, 3>>)}, nc \in {Pick(<<1, 1, 1, 2, 3>>)}, b \in {Pick(Bias)} :
       \E k \in {IF Focus = "enum" THEN (IF nt = 3 THEN 1 ELSE 2) ELSE IF Focus = "real" THEN Rnd(6) ELSE Rnd(4)} :
          thr' = Rep(LAMBDA i : Rep(LAMBDA j : Op1(nk, nc, b), k), nt)
  /\ phase' = "print" /\ n' = n

Finish ==
  /\ phase = "print"
  /\ \E seed \in {Rnd(100000000)}, pol \in {Pick(<<"rand", "pct", "stick">>)} :
       PrintT("SCN " \o ToJson(
         [ kind |-> IF Focus = "real" THEN "kvr" ELSE "kv", seed |-> seed, mode |-> "kv",
           policy |-> IF Focus = "enum" THEN "enum" ELSE pol,
           bound |-> IF Tier = "thorough" THEN 4 ELSE 2, limit |-> IF Focus # "enum" THEN 0 ELSE IF Tier = "thorough" THEN 20000 ELSE 1500,
           rounds |-> IF Focus = "enum" THEN 1 ELSE IF Focus = "real" THEN 40 ELSE 8, thr |-> thr ]))
  /\ phase' = "done" /\ UNCHANGED <<thr, n>>

Next == Choose \/ Finish
Spec == Init /\ [][Next]_gvars
=============================================================================
