------------------------------- MODULE GenSrv -------------------------------
(***************************************************************************)
(* The environment of a gev server: the peers, the kernel and the          *)
(* application, as a state machine whose behaviours are test scenarios.    *)
(* TLC simulates it ("-simulate num=N -seed S"); every behaviour ends by   *)
(* printing its scenario as one line of JSON, which the driver executes    *)
(* against the real server.                                                *)
(*                                                                         *)
(* Focus chooses the mix of steps (which properties the scenario presses   *)
(* on); it never decides a verdict.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Focus == IOEnv.FOCUS
Seed == atoi(IOEnv.SEED)
Tier == IOEnv.TIER

VARIABLES phase, id, cfg, sched, steps, grp, par, final, live, nc, nt, left

gvars == <<phase, id, cfg, sched, steps, grp, par, final, live, nc, nt, left>>

Pick(s) == s[RandomElement(1..Len(s))]     \* of a sequence: repetition is weight
Rnd(n) == RandomElement(1..n)
Coin(n) == RandomElement(1..n) = 1

Sizes(k) == IF k = "huge" THEN <<1, 3000, 20000, 65535, 65536, 65537, 100000, 131072, 200000>>
            ELSE IF k = "big" THEN <<700, 1500, 2500, 3000, 4100, 5000, 9000>>
            ELSE <<1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 20, 33, 64>>

\* -------------------------------------------------------------- operations
Op(o, c, n) == [o |-> o, c |-> c, n |-> n]

MsgSize(k) == IF k = "huge" THEN Pick(<<1, 7, 5000, 65535, 65536, 70000, 140000>>)
              ELSE IF k = "big" THEN Pick(<<1, 7, 700, 1500, 2500, 4100, 5000>>) ELSE Pick(<<0, 1, 1, 2, 3, 6, 7, 8, 9, 12, 20, 40>>)

\* what a callback may do; c = 0 is the connection itself
CbOp(k, kinds, n) ==
  LET o == Pick(kinds) IN
  CASE o = "send" -> [o |-> "send", c |-> IF n > 1 /\ Coin(4) THEN Rnd(n) ELSE 0, n |-> MsgSize(k), fin |-> IF Coin(2) THEN 1 ELSE 0]
    [] o = "reply" -> Op("reply", 0, MsgSize(k))
    [] o = "close" -> Op("close", IF n > 1 /\ Coin(4) THEN Rnd(n) ELSE 0, 0)
    [] o = "task" -> [o |-> "task", l |-> Rnd(4)]
    [] OTHER -> Op(o, 0, 0)

RECURSIVE Rep(_, _)
\* a sequence of n values of the (random) operator F
Rep(F(_), n) == IF n = 0 THEN << >> ELSE <<F(n)>> \o Rep(F, n - 1)

CbKinds ==
  CASE Focus \in {"io"} -> <<"reply", "reply", "reply", "send", "send">>
    [] Focus = "life"  -> <<"reply", "send", "close", "look", "shut">>
    [] Focus = "shut"  -> <<"reply", "reply", "send", "shut", "shut", "close">>
    [] Focus = "fault" -> <<"reply", "reply", "send">>
    [] Focus = "task"  -> <<"task", "task", "send", "reply", "close">>
    [] Focus \in {"stop", "init"} -> <<"reply", "send", "close", "task">>
    [] OTHER           -> <<"reply", "send">>

ConnKinds ==
  CASE Focus = "life" -> <<"send", "close", "look", "shut", "look">>
    [] Focus = "shut" -> <<"send", "send", "shut">>
    [] Focus = "task" -> <<"task", "send">>
    [] OTHER          -> <<"send", "send", "look">>

CloseKinds == <<"send", "close", "shut", "look", "task">>

MakeCfg(x) ==   \* the parameter keeps TLC from evaluating this once and for all
  LET k == IF Focus \in {"io", "shut", "life"} THEN Pick(<<"small", "small", "small", "small", "small", "small", "big", "big", "huge">>) ELSE "small"
      proto == IF Focus \in {"io", "life", "shut"} THEN Pick(<<"default", "raw", "raw", "rec", "rec", "batch", "batch", "zc", "ctx">>) ELSE Pick(<<"raw", "rec", "default">>)
  IN
  [ loops |-> IF Focus = "lb" THEN Pick(<<0, 1, 2, 3, 3, 4, 4>>) ELSE IF Focus \in {"idle", "timer"} THEN 1 ELSE Pick(<<1, 1, 2, 2, 3>>),
    size |-> k,
    proto |-> proto,
    rec |-> Rep(LAMBDA i : IF k = "huge" THEN Pick(<<900, 9000, 40000, 70000, 100000>>) ELSE IF k = "big" THEN Pick(<<90, 300, 900, 1700, 3000>>) ELSE Pick(<<1, 1, 2, 3, 4, 5, 7, 11>>), Rnd(3)),
    pkt |-> IF k = "huge" THEN Pick(<<4096, 65536, 65536>>) ELSE IF k = "big" THEN Pick(<<512, 1024, 4096, 65536>>) ELSE Pick(<<1, 2, 3, 4, 5, 8, 16, 64>>),
    ubuf |-> Pick(<<1, 4, 16, 4096>>),
    tq |-> Pick(<<1, 1, 2, 4, 1024>>),
    idle |-> IF Focus = "idle" THEN Pick(<<5000, 7000, 10500, 20000, 3000>>) ELSE 0,
    strategy |-> IF Focus = "lb" THEN Pick(<<"rr", "rr", "lc", "lc", "lc", "last", "first">>) ELSE Pick(<<"rr", "rr", "lc", "last">>),
    maxev |-> Pick(<<0, 0, 1, 2>>),
    evs |-> Pick(<<0, 0, 1, 2, 3>>),
    reuse |-> IF Focus \in {"init", "stop"} /\ Coin(3) THEN 1 ELSE 0,
    inits |-> IF Focus = "init" THEN Rep(LAMBDA i : [k |-> Pick(<<"epoll", "epoll", "eventfd", "eventfd", "ctl", "ctl", "nonblock">>), n |-> Rnd(4)], Rnd(3) - 1) ELSE << >>,
    again |-> IF Focus \in {"init", "stop"} /\ Coin(3) THEN 1 ELSE 0,
    nostart |-> IF Focus = "stop" /\ Coin(2) THEN 1 ELSE 0,
    onmsg |-> Rep(LAMBDA i : Rep(LAMBDA j : CbOp(k, CbKinds, 0), Rnd(3) - 1), Rnd(4) - (IF Focus = "io" THEN 0 ELSE 1)),
    onconn |-> IF Coin(3) THEN Rep(LAMBDA j : CbOp(k, ConnKinds, 0), Rnd(2)) ELSE << >>,
    onclose |-> IF Coin(3) THEN Rep(LAMBDA j : CbOp(k, CloseKinds, 0), Rnd(3)) ELSE << >> ]

Cap(k) == IF k = "huge" THEN Pick(<<0, 10000, 65536, 100000, -1, -1>>) ELSE IF k = "big" THEN Pick(<<0, 300, 1000, 2500, -1, -1>>) ELSE Pick(<<0, 1, 3, 5, 8, 20, 64, -1, -1, -1>>)
Room(k) == IF k = "huge" THEN Pick(<<5000, 65536, 65537, 150000, 400000>>) ELSE IF k = "big" THEN Pick(<<200, 700, 1800, 3000, 10000>>) ELSE Pick(<<1, 2, 3, 5, 8, 13, 30, 100>>)

\* ------------------------------------------------------- environment steps
Menu ==
  CASE Focus = "io"    -> <<"in", "in", "in", "in", "cap", "cap", "send", "send", "conn", "fin", "look">>
    [] Focus = "life"  -> <<"conn", "conn", "in", "in", "fin", "gone", "rst", "close", "close", "send", "cap", "shut", "look", "stale", "stale", "wr", "rd">>
    [] Focus = "fault" -> <<"conn", "conn", "in", "in", "acc", "nbf", "addf", "wr", "rd", "wait", "send", "cap", "fin", "rst">>
    [] Focus = "lb"    -> <<"conn", "conn", "conn", "close", "fin", "rst", "addf", "in", "send">>
    [] Focus = "shut"  -> <<"in", "in", "cap", "cap", "send", "send", "shut", "shut", "fin", "conn", "stale", "look">>
    [] Focus = "idle"  -> <<"adv", "adv", "adv", "in", "in", "send", "conn", "close", "fin", "cap">>
    [] Focus = "spin"  -> <<"in", "in", "in", "cap", "cap", "send", "send", "send", "fin", "shut", "task", "conn", "wr", "rst">>
    [] Focus = "timer" -> <<"after", "after", "every", "adv", "adv", "adv", "tstop", "conn", "in">>
    [] Focus = "stop"  -> <<"conn", "in", "send", "fin", "close", "task", "cap", "after">>
    [] Focus = "init"  -> <<"conn", "conn", "in", "send", "fin", "close", "task", "after", "every", "adv", "acc", "nbf", "addf", "rst">>
    [] Focus = "task"  -> <<"task", "task", "task", "send", "in", "close", "conn">>

ConcMenu ==
  CASE Focus = "io"    -> <<"in", "in", "cap", "send", "send", "send">>
    [] Focus = "life"  -> <<"close", "close", "send", "shut", "in", "fin", "rst", "look", "conn", "gone", "stale">>
    [] Focus = "fault" -> <<"in", "send", "wr", "rd", "conn", "addf", "fin", "wait">>
    [] Focus = "lb"    -> <<"conn", "conn", "close", "fin">>
    [] Focus = "shut"  -> <<"send", "send", "shut", "shut", "cap", "fin", "close", "in">>
    [] Focus = "stop"  -> <<"stop", "stop", "conn", "in", "send", "close", "fin", "task", "start">>
    [] Focus = "task"  -> <<"task", "task", "task", "send", "close", "in", "stop">>
    [] Focus = "init"  -> <<"stop", "stop", "conn", "conn", "in", "send", "close", "fin", "task">>
    [] Focus = "idle"  -> <<"adv", "adv", "adv", "in", "in", "send", "close", "fin", "cap", "conn", "stop">>
    [] Focus = "timer" -> <<"after", "every", "every", "adv", "adv", "adv", "adv", "tstop", "tstop", "stop", "in">>
    [] Focus = "spin"  -> <<"in", "in", "cap", "send", "send", "shut", "task", "fin", "close">>
    [] OTHER           -> <<"in", "send">>

\* schedules in which time passes while threads wait their turn
Timed == Focus \in {"idle", "timer"}
IdleCap(k) == IF Timed THEN Pick(<<-1, -1, -1, -1, 0, 5, 20>>) ELSE Cap(k)

Target == IF live # {} /\ ~Coin(6) THEN RandomElement(live) ELSE IF nc = 0 THEN 1 ELSE Rnd(nc)

Errs(o) == IF o = "wr" THEN Pick(<< <<11>>, <<11, 11>>, <<-1>>, <<-2, 11, -1>>, <<104>>, <<32>>, <<0, 104>>, <<-3, 32>>, <<110>> >>)
           ELSE IF o = "rd" THEN Pick(<< <<11>>, <<-1, -1>>, <<-2>>, <<104>>, <<0, 104>>, <<11, 110>> >>)
           ELSE IF o = "acc" THEN Pick(<< <<24>>, <<103>>, <<11>>, <<4>>, <<24, 23, 105>>, <<0, 103>>, <<71, 12>> >>)
           ELSE IF o = "nbf" THEN Pick(<< <<9>>, <<0, 9>>, <<22>> >>)
           ELSE <<4, 4>>

\* one operation of kind o (an operator because each use draws afresh)
MakeOp(o, k) ==
  CASE o = "conn" -> Op("conn", nc + 1, IdleCap(k))
    [] o = "in"   -> Op("in", Target, Pick(Sizes(k)))
    [] o = "cap"  -> Op("cap", Target, Room(k))
    [] o = "send" -> [o |-> "send", c |-> Target, n |-> MsgSize(k), fin |-> IF Coin(2) THEN 1 ELSE 0]
    [] o = "stale" -> [o |-> Pick(<<"send", "close", "shut", "look">>), c |-> IF nc = 0 THEN 1 ELSE Rnd(nc), n |-> 5, fin |-> 1]
    [] o \in {"wr", "rd"} -> [o |-> o, c |-> Target, e |-> Errs(o)]
    [] o \in {"acc", "nbf", "wait"} -> [o |-> o, e |-> Errs(o)]
    [] o = "adv"  -> Op("adv", 0, Pick(<<500, 1000, 1500, 2300, 3000, 4000, 4900, 6000, 9000, 15000>>))
    [] o \in {"after", "every"} -> Op(o, nt + 1, Pick(IF o = "after" THEN <<0, 300, 1000, 2000, 3000, 5000, 8000, 20000, 30000>> ELSE <<1000, 2000, 3000, 5000, 8000, 20000, 30000>>))
    [] o = "tstop" -> Op("tstop", IF nt = 0 THEN 1 ELSE Rnd(nt), 0)
    [] o = "task" -> [o |-> "task", l |-> Rnd(4)]
    [] OTHER -> Op(o, Target, 0)

Dies(op) == op.o \in {"fin", "gone", "rst", "close"}

Init ==
  /\ phase = "cfg" /\ id = 0 /\ cfg = << >> /\ sched = FALSE
  /\ steps = << >> /\ grp = << >> /\ par = << >> /\ final = << >>
  /\ live = {} /\ nc = 0 /\ nt = 0 /\ left = 0

ChooseCfg ==
  /\ phase = "cfg"
  /\ \E c \in {MakeCfg(left)}, s \in {Coin(IF Timed THEN 3 ELSE 2)}, n \in {IF Coin(25) THEN 60 + Rnd(120) ELSE IF Tier = "thorough" THEN 6 + Rnd(24) ELSE 5 + Rnd(16)}, many \in {Coin(25)} :
       /\ cfg' = c
       /\ sched' = s
       /\ left' = IF s THEN 2 + (n \div 4) ELSE n
       /\ \E n1 \in {IF many THEN 10 + Rnd(40) ELSE Rnd(IF Focus = "lb" THEN 5 ELSE 2)}, cap \in {IdleCap(c.size)} :
            /\ steps' = IF c.nostart = 1 THEN << >> ELSE << [i \in 1..n1 |-> Op("conn", i, cap)] >>
            /\ nc' = IF c.nostart = 1 THEN 0 ELSE n1
            /\ live' = IF c.nostart = 1 THEN {} ELSE 1..n1
  /\ phase' = "steps"
  /\ UNCHANGED <<id, grp, par, final, nt>>

Note(op) ==
  /\ nc' = IF op.o = "conn" THEN nc + 1 ELSE nc
  /\ nt' = IF op.o \in {"after", "every"} THEN nt + 1 ELSE nt
  /\ live' = IF op.o = "conn" THEN live \cup {nc + 1} ELSE IF Dies(op) THEN live \ {op.c} ELSE live

AddStep ==
  /\ phase = "steps" /\ left > 0
  /\ \E o \in {Pick(Menu)} : \E op \in {MakeOp(IF o = "conn" /\ nc >= (IF Focus = "lb" THEN 12 ELSE 5) /\ ~Coin(6) THEN "look" ELSE o, cfg.size)}, cut \in {Coin(2)} :
       /\ Note(op)
       /\ IF cut THEN steps' = Append(steps, Append(grp, op)) /\ grp' = << >>
          ELSE grp' = Append(grp, op) /\ steps' = steps
  /\ left' = left - 1
  /\ UNCHANGED <<phase, id, cfg, sched, par, final>>

EndSteps ==
  /\ phase = "steps" /\ left = 0
  /\ steps' = IF grp = << >> THEN steps ELSE Append(steps, grp)
  /\ grp' = << >>
  /\ IF sched THEN \E n \in {1 + Rnd(3)} : /\ left' = n * 10 + 3
                                            /\ par' = << << >> >>
                                            /\ phase' = "par"
     ELSE phase' = "print" /\ UNCHANGED <<left, par>>
  /\ UNCHANGED <<id, cfg, sched, final, live, nc, nt>>

\* concurrent threads: left = 10 * threads still to come + operations left
AddPar ==
  /\ phase = "par"
  /\ \E o \in {Pick(ConcMenu)} : \E op \in {MakeOp(IF o = "conn" /\ nc >= 8 THEN "look" ELSE o, cfg.size)}, stop \in {Coin(3)} :
       LET i == Len(par) IN
       /\ Note(op)
       /\ par' = IF stop \/ Len(par[i]) >= 3
                 THEN IF left >= 20 THEN Append([par EXCEPT ![i] = Append(@, op)], << >>) ELSE [par EXCEPT ![i] = Append(@, op)]
                 ELSE [par EXCEPT ![i] = Append(@, op)]
       /\ left' = IF stop \/ Len(par[i]) >= 3 THEN left - 10 ELSE left
       /\ phase' = IF (stop \/ Len(par[i]) >= 3) /\ left < 20 THEN "final" ELSE "par"
  /\ UNCHANGED <<id, cfg, sched, steps, grp, final>>

AddFinal ==
  /\ phase = "final"
  /\ \E n \in {Rnd(3) - 1} : \E f \in {Rep(LAMBDA i : MakeOp(Pick(<<"in", "cap", "cap", "look", "send">>), cfg.size), n)} :
       final' = IF f = << >> THEN << >> ELSE <<f>>
  /\ phase' = "print"
  /\ UNCHANGED <<id, cfg, sched, steps, grp, par, live, nc, nt, left>>

Scenario(seed, pol) ==
  [ kind |-> "srv", seed |-> seed, mode |-> IF sched THEN "sched" ELSE "step", policy |-> pol,
    timed |-> IF sched /\ Timed THEN 1 ELSE 0,
    cfg |-> cfg,
    steps |-> IF cfg.nostart = 1
              THEN << <<[o |-> "start"]>> >> \o
                   (IF sched THEN << >> ELSE steps)
              ELSE steps,
    par |-> par,
    final |-> final ]

Finish ==
  /\ phase = "print"
  /\ \E seed \in {Rnd(100000000)}, pol \in {Pick(<<"rand", "pct", "pct", "stick">>)} : PrintT("SCN " \o ToJson(Scenario(seed, pol)))
  /\ phase' = "done"
  /\ UNCHANGED <<id, cfg, sched, steps, grp, par, final, live, nc, nt, left>>

Next == ChooseCfg \/ AddStep \/ EndSteps \/ AddPar \/ AddFinal \/ Finish

Spec == Init /\ [][Next]_gvars
=============================================================================
