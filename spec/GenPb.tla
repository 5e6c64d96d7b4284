-------------------------------- MODULE GenPb --------------------------------
(* Clients of the protobuf plugin: messages, malformed headers, how they are *)
(* cut, what is replied. Every behaviour is a scenario.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Tier == IOEnv.TIER
VARIABLES phase, cfg, items, sched, steps, grp, par, left
gvars == <<phase, cfg, items, sched, steps, grp, par, left>>

Pick(s) == s[RandomElement(1..Len(s))]
Rnd(n) == RandomElement(1..n)
Coin(n) == RandomElement(1..n) = 1
RECURSIVE Rep(_, _)
Rep(F(_), n) == IF n = 0 THEN << >> ELSE <<F(n)>> \o Rep(F, n - 1)

Small == <<0, 0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
TypeLen(x) == IF Coin(10) THEN Pick(<<127, 128, 255, 256, 257, 1000>>) ELSE IF Coin(60) THEN Pick(<<32767, 32768, 65535>>) ELSE Pick(Small)
DataLen(x) == IF Coin(8) THEN Pick(<<127, 128, 255, 256, 300, 1000, 4095, 4096>>) ELSE IF Coin(40) THEN Pick(<<65535, 65536, 70000>>) ELSE Pick(Small)

Message(x) == [k |-> "pb", tl |-> TypeLen(x), n |-> DataLen(x), bad |-> 0, wl |-> 0, wt |-> 0]
\* the length is smaller than what the type needs, or more than will ever come
Bad(x) ==
  LET p == Pick(<< <<0, 0>>, <<1, 0>>, <<0, 5>>, <<2, 1>>, <<5, 4>>, <<10, 65535>>, <<1, 65535>>, <<0, 1>>, <<7, 6>>, <<-1, 0>>, <<-1, 65535>>, <<2147483647, 3>>, <<-2147483647, 0>> >>)
  IN [k |-> "pb", tl |-> 0, n |-> Pick(<<0, 1, 2, 5, 20, 100>>), bad |-> 1, wl |-> p[1], wt |-> p[2]]

Stream(x) ==
  LET ms == Rep(LAMBDA i : Message(i), Rnd(IF Tier = "thorough" THEN 14 ELSE 8))
  IN IF Coin(5) THEN << [Bad(x) EXCEPT !.n = 0] >> \o Rep(LAMBDA i : [Message(i) EXCEPT !.tl = Pick(<<0, 0, 1, 2>>), !.n = Pick(<<0, 0, 1, 3>>)], 2 + Rnd(6))
     ELSE IF Coin(3) THEN ms \o <<Bad(x)>> \o Rep(LAMBDA i : Message(i), Rnd(3) - 1) ELSE ms

CbOp(x) == [o |-> "reply", c |-> 0, n |-> Pick(<<0, 1, 5, 100, 300>>), l |-> 1]

MakeCfg(x) ==
  [ loops |-> Pick(<<1, 1, 2>>), pkt |-> Pick(<<1, 2, 3, 5, 6, 7, 8, 16, 64, 200, 1024, 65536>>), ubuf |-> Pick(<<1, 4, 16, 64, 300, 4096>>),
    maxev |-> Pick(<<0, 1>>), onmsg |-> Rep(LAMBDA i : Rep(LAMBDA j : CbOp(j), Rnd(2) - 1), Rnd(3) - 1) ]

Init == phase = "cfg" /\ cfg = << >> /\ items = << >> /\ sched = FALSE /\ steps = << >> /\ grp = << >> /\ par = << >> /\ left = 0

ChooseCfg ==
  /\ phase = "cfg"
  /\ \E c \in {MakeCfg(left)}, n \in {Pick(<<1, 2, 2, 3>>)}, s \in {Coin(6)}, k \in {5 + Rnd(IF Tier = "thorough" THEN 30 ELSE 15)} :
     \E its \in {Rep(LAMBDA i : Stream(i), n)}, cap \in {Pick(<<-1, -1, -1, 0, 50, 300>>)} :
       cfg' = c /\ items' = its /\ sched' = s /\ left' = k /\ steps' = << [i \in 1..n |-> [o |-> "conn", c |-> i, n |-> cap]] >>
  /\ phase' = "steps"
  /\ UNCHANGED <<grp, par>>

MakeOp(x) ==
  LET o == Pick(<<"seg", "seg", "segi", "segi", "segi", "segi", "cap", "rd", "fin">>)
      c == Rnd(Len(items))
  IN
  CASE o = "segi" -> [o |-> "segi", c |-> c, l |-> Rnd(Len(items[c])), n |-> Pick(<<0, 0, 0, -1, -2, -5, 1, 2, 3, 4, 5, 6, 7, 9, 10>>)]
    [] o = "cap"  -> [o |-> "cap", c |-> c, n |-> Pick(<<1, 5, 50, 300, -1>>)]
    [] o = "rd"   -> [o |-> "rd", c |-> c, e |-> Pick(<< <<11>>, <<-1, -1>>, <<-2>>, <<-1, -3, -1>>, <<-6>>, <<-5, -1>> >>)]
    [] o = "fin" /\ Coin(6) -> [o |-> IF Coin(2) THEN "fin" ELSE "seg", c |-> c, n |-> 0]
    [] OTHER      -> [o |-> "seg", c |-> c, n |-> Pick(<<1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 50, 100, 500, -1>>)]

AddStep ==
  /\ phase = "steps" /\ left > 0
  /\ \E op \in {MakeOp(left)}, cut \in {~Coin(3)} :
       IF cut THEN steps' = Append(steps, Append(grp, op)) /\ grp' = << >>
       ELSE grp' = Append(grp, op) /\ steps' = steps
  /\ left' = left - 1
  /\ UNCHANGED <<phase, cfg, items, sched, par>>

EndSteps ==
  /\ phase = "steps" /\ left = 0
  /\ steps' = IF grp = << >> THEN steps ELSE Append(steps, grp)
  /\ grp' = << >>
  /\ \E p \in {IF sched THEN Rep(LAMBDA i : Rep(LAMBDA j : MakeOp(j), 1 + Rnd(3)), 1 + Rnd(2)) ELSE << >>} : par' = p
  /\ phase' = "print"
  /\ UNCHANGED <<cfg, items, sched, left>>

Finish ==
  /\ phase = "print"
  /\ \E seed \in {Rnd(100000000)}, pol \in {Pick(<<"rand", "pct", "stick">>)} :
       PrintT("SCN " \o ToJson(
         [ kind |-> "pb", seed |-> seed, mode |-> IF sched THEN "sched" ELSE "step", policy |-> pol, cfg |-> cfg, items |-> items,
           steps |-> steps, par |-> par,
           final |-> << [i \in 1..Len(items) |-> [o |-> "seg", c |-> i, n |-> -1]], [i \in 1..Len(items) |-> [o |-> "cap", c |-> i, n |-> -1]],
                        [i \in 1..Len(items) |-> [o |-> "fin", c |-> i, n |-> 0]] >> ]))
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, items, sched, steps, grp, par, left>>

Next == ChooseCfg \/ AddStep \/ EndSteps \/ Finish
Spec == Init /\ [][Next]_gvars
=============================================================================
