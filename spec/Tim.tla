--------------------------------- MODULE Tim ---------------------------------
(***************************************************************************)
(* The timing side of gev, checked against the contract (Gev): the timing  *)
(* wheel as gev uses it (timers fire on whole ticks, every firing in a     *)
(* goroutine of its own), RunAfter, RunEvery, Timer.Stop, Stop, and the    *)
(* idle timer of a connection, which re-checks and re-arms itself.         *)
(*                                                                         *)
(* Time is counted in units of half a tick (500 microseconds). It passes   *)
(* when nothing can run; Lag times it passes although something can, i.e.  *)
(* goroutines are held up.                                                 *)
(*                                                                         *)
(* As in Alg, every observable step is the action of Gev of that name.     *)
(***************************************************************************)
EXTENDS GevEvents

CONSTANTS
  IdleT,      \* idle time in units (0: no connection, timers only)
  NIn,        \* inputs the peer may send, at any moments
  NAfter, NEvery, Durations, NTStop, NStop,
  MaxT,       \* until when
  Lag,
  Variant

VARIABLES ok, set, now, lag,
  active, due, ran,  \* connection: time of the last activity; its timer (-1: none) and whether that ran at this moment
  inq, sent, up, todo, work, q,
  wheel,             \* id -> [at, d, every, on]
  go,                \* goroutines: sequences of steps
  app, bud, ids, stopped

tvars == <<ok, set, now, lag, active, due, ran, inq, sent, up, todo, work, q, wheel, go, app, bud, ids, stopped>>
mvars == <<vars, tvars>>

Unit == 500
T == now * Unit
Tick(x) == x - (x % 2)          \* expiries are cut to whole ticks

See(e) == IF ENABLED Step(e) THEN Step(e) /\ ok' = ok
          ELSE UNCHANGED vars /\ ok' = FALSE
Unseen == UNCHANGED vars /\ ok' = ok

TimInit ==
  /\ GevInit
  /\ ok = TRUE /\ set = 0 /\ now = 0 /\ lag = Lag
  /\ active = 0 /\ due = -1 /\ ran = FALSE /\ inq = 0 /\ sent = 0 /\ up = TRUE /\ todo = << >> /\ work = << >> /\ q = 0
  /\ wheel = << >> /\ go = << >> /\ app = << >> /\ ids = 0 /\ stopped = FALSE
  /\ bud = [after |-> NAfter, every |-> NEvery, tstop |-> NTStop, stop |-> NStop]

LoopG == 100
Script == <<
  [e |-> "cfg", idle |-> IdleT * Unit, strategy |-> "rr", proto |-> "default", loops |-> 1],
  [e |-> "stt", k |-> "call", t |-> 0],
  [e |-> "q", cs |-> << >>, counts |-> <<0>>, t |-> 0] >>
 \o IF IdleT = 0 THEN << >> ELSE <<
  [e |-> "conn", c |-> 1, cap |-> 1000, t |-> 0],
  [e |-> "ac", c |-> 1, t |-> 0],
  [e |-> "as", pick |-> 1, before |-> <<0>>, after |-> <<0>>, g |-> 1],
  [e |-> "oc", c |-> 1, g |-> LoopG, fresh |-> TRUE, up |-> TRUE],
  [e |-> "ocr", c |-> 1] >>

Setup ==
  /\ set < Len(Script)
  /\ set' = set + 1
  /\ See(Script[set + 1])
  /\ due' = IF set + 1 = Len(Script) /\ IdleT > 0 THEN IdleT ELSE due
  /\ UNCHANGED <<now, lag, active, ran, inq, sent, up, todo, work, q, wheel, go, app, bud, ids, stopped>>
Ready == set = Len(Script)

-----------------------------------------------------------------------------
(* The connection *)
UNI == UNCHANGED <<set, now, lag, wheel, go, app, bud, ids, stopped>>

PeerSends ==
  /\ sent < NIn /\ up /\ ~stopped
  /\ sent' = sent + 1 /\ inq' = inq + 1
  /\ See([e |-> "in", c |-> 1, n |-> 1, t |-> T])
  /\ UNCHANGED <<active, due, ran, up, todo, work, q>> /\ UNI

Stamp == IF Variant = "coarse" THEN now - (now % 8) ELSE now

LoopStep ==
  /\ \/ /\ work = << >> /\ inq > 0 /\ up
        /\ active' = IF Variant = "noactive" THEN active ELSE Stamp
        /\ work' = <<"read">>
        /\ Unseen /\ UNCHANGED <<due, ran, inq, up, q>>
     \/ /\ work = << >> /\ q > 0
        /\ q' = q - 1
        /\ work' = IF up THEN <<"ox", "oxr", "kc">> ELSE << >>
        /\ up' = FALSE
        /\ Unseen /\ UNCHANGED <<active, due, ran, inq>>
     \/ /\ work # << >>
        /\ work' = (CASE Head(work) = "read" -> <<"om">> [] Head(work) = "om" -> <<"omr">> [] OTHER -> << >>) \o Tail(work)
        /\ inq' = IF Head(work) = "read" THEN inq - 1 ELSE inq
        /\ due' = IF Head(work) = "kc" THEN -1 ELSE due
        /\ See(CASE Head(work) = "read" -> [e |-> "rd", c |-> 1, n |-> 1, err |-> 0, t |-> T]
                 [] Head(work) = "om"  -> [e |-> "om", c |-> 1, g |-> LoopG, f |-> cn[1].cons, n |-> 1, ok |-> TRUE, own |-> TRUE]
                 [] Head(work) = "omr" -> [e |-> "omr", c |-> 1, id |-> 0, n |-> 0]
                 [] Head(work) = "ox"  -> [e |-> "ox", c |-> 1, g |-> LoopG, up |-> FALSE, own |-> TRUE, t |-> T]
                 [] Head(work) = "oxr" -> [e |-> "oxr", c |-> 1]
                 [] OTHER -> [e |-> "kc", c |-> 1, t |-> T])
        /\ UNCHANGED <<active, ran, up, q>>
  /\ UNCHANGED <<sent, todo>> /\ UNI

\* the idle timer: its goroutine reads the clock and the time of the last
\* activity, and closes the connection or waits for the rest
IdleFires ==
  /\ due >= 0 /\ Tick(due) <= now /\ ~ran /\ todo = << >> /\ ~stopped
  /\ due' = -1 /\ todo' = <<"check">>
  /\ Unseen /\ UNCHANGED <<active, ran, inq, sent, up, work, q>> /\ UNI

IdleStep ==
  /\ todo # << >>
  /\ LET gap == now - active IN
     IF Head(todo) = "close"
     THEN /\ q' = IF up THEN q + 1 ELSE q
          /\ todo' = << >>
          /\ UNCHANGED <<due, ran>>
     ELSE IF gap >= IdleT \/ Variant = "norecheck"
          THEN todo' = <<"close">> /\ UNCHANGED <<due, ran, q>>
          ELSE /\ due' = IF ~up \/ Variant = "norearm" THEN due ELSE now + (IF Variant = "fullrearm" THEN IdleT ELSE IdleT - gap)
               /\ ran' = TRUE      \* a timer for less than a tick runs at once
               /\ todo' = << >> /\ UNCHANGED q
  /\ Unseen /\ UNCHANGED <<active, inq, sent, up, work>> /\ UNI

-----------------------------------------------------------------------------
(* Timers *)
UNC == UNCHANGED <<set, now, lag, active, due, ran, inq, sent, up, todo, work, q>>

Set(every) ==
  /\ app = << >>
  /\ \E d \in Durations :
       /\ ids' = ids + 1
       /\ app' = <<[o |-> "arm", id |-> ids + 1, d |-> d, every |-> every], [o |-> "ret", id |-> ids + 1]>>
       /\ See([e |-> "ta", k |-> "call", id |-> ids + 1, d |-> d * Unit, every |-> every, t |-> T])
  /\ UNCHANGED <<wheel, go, stopped>> /\ UNC

Begin ==
  \/ bud.after > 0 /\ bud' = [bud EXCEPT !.after = @ - 1] /\ Set(FALSE)
  \/ bud.every > 0 /\ bud' = [bud EXCEPT !.every = @ - 1] /\ Set(TRUE)
  \/ /\ app = << >> /\ bud.tstop > 0 /\ bud' = [bud EXCEPT !.tstop = @ - 1]
     /\ \E i \in DOMAIN wheel : /\ app' = <<[o |-> "disarm", id |-> i]>>
     /\ Unseen /\ UNCHANGED <<wheel, go, ids, stopped>> /\ UNC
  \/ /\ app = << >> /\ bud.stop > 0 /\ bud' = [bud EXCEPT !.stop = @ - 1] /\ ~stopped
     /\ app' = <<[o |-> "halt"], [o |-> "out"]>>
     /\ See([e |-> "stc", id |-> 1000, t |-> T])
     /\ UNCHANGED <<wheel, go, ids, stopped>> /\ UNC

AppStep ==
  /\ app # << >> /\ app' = Tail(app)
  /\ LET x == Head(app) IN
     CASE x.o = "arm" ->
            /\ wheel' = (x.id :> [at |-> now + x.d, d |-> x.d, every |-> x.every, on |-> TRUE]) @@ wheel
            /\ Unseen /\ UNCHANGED stopped
       [] x.o = "ret" ->
            /\ See([e |-> "ta", k |-> "ret", id |-> x.id, t |-> T]) /\ UNCHANGED <<wheel, stopped>>
       [] x.o = "disarm" ->
            LET r == wheel[x.id].on /\ Variant # "stopnoop" IN
            /\ wheel' = IF r THEN [wheel EXCEPT ![x.id].on = FALSE] ELSE wheel
            /\ See([e |-> "ts", id |-> x.id, r |-> wheel[x.id].on, t |-> T]) /\ UNCHANGED stopped
       [] x.o = "out" ->
            /\ See([e |-> "stt", k |-> "ret", t |-> T]) /\ UNCHANGED <<wheel, stopped>>
       [] x.o = "halt" ->
            /\ stopped' = (Variant # "outlive")
            /\ See([e |-> "str", id |-> 1000, t |-> T]) /\ UNCHANGED wheel
  /\ UNCHANGED <<go, bud, ids>> /\ UNC

\* a bucket expires: the timer's goroutine starts
Fires(i) ==
  /\ wheel[i].on /\ Tick(wheel[i].at) <= now /\ ~stopped
  /\ wheel' = [wheel EXCEPT ![i].on = FALSE]
  /\ go' = Append(go, <<i, "rearm">>)
  /\ Unseen /\ UNCHANGED <<app, bud, ids, stopped>> /\ UNC

\* every timer is put back before its function runs, its next expiry counted from the last
GoStep(j) ==
  LET i == go[j][1] IN
  /\ IF go[j][2] = "rearm"
     THEN /\ wheel' = IF wheel[i].every
                      THEN [wheel EXCEPT ![i].on = TRUE, ![i].at = (IF Variant = "fromnow" THEN now ELSE wheel[i].at) + wheel[i].d]
                      ELSE wheel
          /\ go' = [go EXCEPT ![j] = <<i, "run">>]
          /\ Unseen
     ELSE /\ go' = IF Variant = "twice" /\ go[j][2] = "run" THEN [go EXCEPT ![j] = <<i, "again">>] ELSE RemoveAt(go, j)
          /\ See([e |-> "tf", id |-> i, t |-> T]) /\ UNCHANGED wheel
  /\ UNCHANGED <<app, bud, ids, stopped>> /\ UNC

-----------------------------------------------------------------------------
(* Time *)
IdleCan == (due >= 0 /\ Tick(due) <= now /\ ~ran /\ ~stopped) \/ todo # << >>
WheelCan == \E i \in DOMAIN wheel : wheel[i].on /\ Tick(wheel[i].at) <= now /\ ~stopped
CanRun == app # << >> \/ go # << >> \/ WheelCan \/ IdleCan \/ work # << >> \/ q > 0 \/ (inq > 0 /\ up)

Pass ==
  /\ Ready /\ now < MaxT
  /\ IF CanRun
     THEN /\ lag > 0 /\ lag' = lag - 1
          /\ See([e |-> "lag", d |-> Unit, t |-> T + Unit])
     ELSE Unseen /\ UNCHANGED lag
  /\ now' = now + 1 /\ ran' = FALSE
  /\ UNCHANGED <<set, active, due, inq, sent, up, todo, work, q, wheel, go, app, bud, ids, stopped>>

Rests ==
  /\ Ready /\ ~CanRun
  /\ See([e |-> "q", t |-> T, counts |-> <<IF IdleT > 0 /\ up /\ ~stopped THEN 1 ELSE 0>>,
          cs |-> IF IdleT = 0 THEN << >>
                 ELSE << [c |-> 1, unread |-> inq, cap |-> 1000, closed |-> ~up, acc |-> TRUE, known |-> TRUE,
                          up |-> up, wbl |-> 0, rbl |-> 0, own |-> TRUE] >>])
  /\ UNCHANGED <<set, now, lag, active, due, ran, inq, sent, up, todo, work, q, wheel, go, app, bud, ids, stopped>>

Next ==
  \/ Setup
  \/ /\ Ready
     /\ \/ (IdleT > 0 /\ (PeerSends \/ LoopStep \/ IdleFires \/ IdleStep))
        \/ (Begin \/ AppStep \/ (\E i \in DOMAIN wheel : Fires(i)) \/ (\E j \in DOMAIN go : GoStep(j)))
        \/ Pass
        \/ Rests

TimSpec == TimInit /\ [][Next]_mvars

Good == ok
Implements == ok
=============================================================================
