--------------------------------- MODULE Alg ---------------------------------
(***************************************************************************)
(* The algorithm of gev, checked exhaustively, for small constants, against *)
(* the contract (Gev): the event loop with its task queue and wake-up, the  *)
(* connection's read and write paths over a level-triggered poller, Close,  *)
(* Send, ShutdownWrite, the acceptor and Stop, in steps as fine as what     *)
(* other goroutines and the kernel can observe.                             *)
(*                                                                          *)
(* Every observable step performs the action of Gev with the same name; if  *)
(* the contract does not allow it, ok becomes FALSE. So the invariant ok    *)
(* says that this design, under every interleaving within the bounds,       *)
(* implements the contract - which is what the traces of the code are       *)
(* validated against.                                                       *)
(*                                                                          *)
(* Variant names a known bad design: the model must find each of them wrong *)
(* (tools/selftest).                                                        *)
(***************************************************************************)
EXTENDS GevEvents, IOUtils

CONSTANTS
  NConn,      \* connections
  NApp,       \* application goroutines
  MaxIn,      \* bytes each peer sends
  Pkt,        \* bytes one read takes at most
  MsgLen,     \* length of messages sent
  Reply,      \* length of the reply to every message (0: none)
  Windows,    \* room the peer may leave
  NSend, NClose, NShut, NTask, NStop,
  Ends,       \* how peers may end: subset of {"half", "rst"}
  Fails,      \* what may fail: subset of {"nb", "add", "spur"} (spur: spurious wake-ups)
  Fin,        \* 1: sends carry a completion function
  Variant

VARIABLES
  ok,         \* everything so far was allowed by the contract
  ev0,        \* whether the environment has been set up
  k,          \* connection -> its socket
  im,         \* connection -> the Connection object
  efd,        \* the loop's eventfd
  tqW, needWake, running, done,     \* shared with the loop
  work,       \* what the loop's goroutine still has to do
  wake,
  acc,        \* the acceptor: what it still has to do
  app,        \* application goroutine -> what it still has to do
  bud,        \* what the applications and the environment may still do
  ids         \* messages and calls so far

ivars == <<ok, ev0, k, im, efd, tqW, needWake, running, done, work, wake, acc, app, bud, ids>>
avars == <<vars, ivars>>

Conns == 1..NConn
Apps == 1..NApp
LoopG == 100
Inf == 1000

\* one observable step
See(e) == IF ENABLED Step(e) THEN Step(e) /\ ok' = ok
          ELSE UNCHANGED vars /\ ok' = FALSE
Unseen == UNCHANGED vars /\ ok' = ok

-----------------------------------------------------------------------------
Socket(w) == [st |-> "backlog", inq |-> 0, sent |-> 0, fin |-> "", cap |-> w, ints |-> {}, open |-> TRUE, wr |-> TRUE]
Conn0 == [up |-> TRUE, known |-> FALSE, added |-> FALSE, out |-> << >>, shut |-> FALSE]

AlgInit ==
  /\ GevInit
  /\ ok = TRUE /\ ev0 = 0
  /\ k \in [Conns -> {Socket(w) : w \in Windows}]
  /\ im = [c \in Conns |-> Conn0]
  /\ efd = 0 /\ tqW = << >> /\ needWake = TRUE /\ running = TRUE /\ done = FALSE
  /\ work = <<[o |-> "poll"]>> /\ wake = FALSE
  /\ acc = << >>
  /\ app = [a \in Apps |-> << >>]
  /\ bud = [send |-> NSend, close |-> NClose, shut |-> NShut, task |-> NTask, stop |-> NStop]
  /\ ids = 0

Total(out) == FoldLeft(LAMBDA s, p : s + p.to - p.f, 0, out)

\* the first n bytes of a queue of pieces of messages, and what remains
RECURSIVE Split(_, _)
Split(out, n) ==
  IF n = 0 \/ out = << >> THEN [segs |-> << >>, rest |-> out]
  ELSE LET p == Head(out) len == p.to - p.f IN
       IF len <= n THEN LET r == Split(Tail(out), n - len) IN [segs |-> <<p>> \o r.segs, rest |-> r.rest]
       ELSE [segs |-> <<[p EXCEPT !.to = p.f + n]>>, rest |-> <<[p EXCEPT !.f = p.f + n]>> \o Tail(out)]

Piece(id, n) == <<[id |-> id, f |-> 0, to |-> n, n |-> n]>>

-----------------------------------------------------------------------------
(* Setting up: the server starts, the peers connect (one event each) *)
Setup ==
  /\ ev0 < 4 + NConn
  /\ ev0' = ev0 + 1
  /\ See(CASE ev0 = 0 -> [e |-> "cfg", idle |-> 0, strategy |-> "rr", proto |-> "default", loops |-> 1]
           [] ev0 = 1 -> [e |-> "stt", k |-> "call", t |-> 0]
           [] ev0 = 2 -> [e |-> "q", cs |-> << >>, counts |-> <<0>>, t |-> 0]
           [] ev0 = 3 -> IF NConn = 0 THEN [e |-> "loops", n |-> 1] ELSE [e |-> "cap"]
           [] OTHER   -> [e |-> "conn", c |-> ev0 - 3, cap |-> k[ev0 - 3].cap, t |-> 0])
  /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, work, wake, acc, app, bud, ids>>
Ready == ev0 = 4 + NConn

-----------------------------------------------------------------------------
(* QueueInLoop, as steps of the goroutine whose work it is *)
QueueOps(t) == IF Variant = "wakefirst" THEN <<[o |-> "cas"], [o |-> "push", t |-> t]>>
               ELSE <<[o |-> "push", t |-> t], [o |-> "cas"]>>

Push(t) == tqW' = Append(tqW, t)

-----------------------------------------------------------------------------
(* The application *)

NewId == ids + 1

Begin(a) ==
  /\ app[a] = << >>
  /\ \/ \E c \in Conns : im[c].known /\ bud.send > 0
          /\ bud' = [bud EXCEPT !.send = @ - 1]
          /\ app' = [app EXCEPT ![a] = <<[o |-> "check", c |-> c, id |-> NewId, k |-> "s"]>>]
          /\ See([e |-> "sc", c |-> c, id |-> NewId, n |-> MsgLen, fin |-> Fin])
     \/ \E c \in Conns : im[c].known /\ bud.close > 0
          /\ bud' = [bud EXCEPT !.close = @ - 1]
          /\ app' = [app EXCEPT ![a] = <<[o |-> "check", c |-> c, id |-> NewId, k |-> "c"]>>]
          /\ See([e |-> "cc", c |-> c, id |-> NewId])
     \/ \E c \in Conns : im[c].known /\ bud.shut > 0
          /\ bud' = [bud EXCEPT !.shut = @ - 1]
          /\ app' = [app EXCEPT ![a] = <<[o |-> "check", c |-> c, id |-> NewId, k |-> "h"]>>]
          /\ See([e |-> "hc", c |-> c, id |-> NewId])
     \/ bud.task > 0 /\ DOMAIN lp # {}
          /\ bud' = [bud EXCEPT !.task = @ - 1]
          /\ app' = [app EXCEPT ![a] = QueueOps([k |-> "user", id |-> NewId]) \o <<[o |-> "ret", e |-> [e |-> "tq", id |-> NewId]]>>]
          /\ See([e |-> "tc", id |-> NewId, l |-> 1])
     \/ bud.stop > 0
          /\ bud' = [bud EXCEPT !.stop = @ - 1]
          /\ app' = [app EXCEPT ![a] = <<[o |-> "stoploop"]>>]
          /\ See([e |-> "stc", id |-> NewId, t |-> 0])
  /\ ids' = NewId
  /\ UNCHANGED <<ev0, k, im, efd, tqW, needWake, running, done, work, wake, acc>>

RetOf(kind, c, id, r) ==
  [e |-> CASE kind = "s" -> "sr" [] kind = "c" -> "cr" [] OTHER -> "hr", c |-> c, id |-> id, r |-> r]

AppStep(a) ==
  /\ app[a] # << >>
  /\ LET x == Head(app[a]) rest == Tail(app[a]) IN
     CASE x.o = "check" ->
            /\ LET dead == ~im[x.c].up IN
               app' = [app EXCEPT ![a] =
                 IF dead THEN <<[o |-> "ret", e |-> RetOf(x.k, x.c, x.id, "closed")]>> \o rest
                 ELSE (IF x.k = "h" /\ Variant = "shutnow" THEN <<[o |-> "shutnow", c |-> x.c]>> ELSE QueueOps([k |-> x.k, c |-> x.c, id |-> x.id]))
                      \o <<[o |-> "ret", e |-> RetOf(x.k, x.c, x.id, "ok")]>> \o rest]
            /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, running, ids>>
       [] x.o = "push" ->
            /\ Push(x.t) /\ app' = [app EXCEPT ![a] = rest]
            /\ Unseen /\ UNCHANGED <<k, efd, needWake, running, ids>>
       [] x.o = "cas" ->
            /\ app' = [app EXCEPT ![a] = IF needWake THEN <<[o |-> "wake"]>> \o rest ELSE rest]
            /\ needWake' = FALSE
            /\ Unseen /\ UNCHANGED <<k, efd, tqW, running, ids>>
       [] x.o = "wake" ->
            /\ efd' = efd + 1 /\ app' = [app EXCEPT ![a] = rest]
            /\ Unseen /\ UNCHANGED <<k, tqW, needWake, running, ids>>
       [] x.o = "shutnow" ->
            /\ app' = [app EXCEPT ![a] = rest]
            /\ See([e |-> "ks", c |-> x.c, how |-> 1])
            /\ UNCHANGED <<k, efd, tqW, needWake, running, ids>>
       [] x.o = "ret" ->
            /\ app' = [app EXCEPT ![a] = rest]
            /\ See(x.e)
            /\ UNCHANGED <<k, efd, tqW, needWake, running, ids>>
       \* Server.Stop: the acceptor first, then the loop
       [] x.o = "stoploop" ->
            /\ acc = << >>   \* listener.Stop waits for the acceptor's goroutine
            /\ app' = [app EXCEPT ![a] = (IF Variant = "stopnoqueue" THEN << >> ELSE QueueOps([k |-> "all"])) \o <<[o |-> "unrun"], [o |-> "wake"], [o |-> "join"]>>]
            /\ k' = [c \in Conns |-> IF k[c].st = "backlog" THEN [k[c] EXCEPT !.st = "refused"] ELSE k[c]]
            /\ Unseen /\ UNCHANGED <<efd, tqW, needWake, running, ids>>
       [] x.o = "unrun" ->
            /\ running' = FALSE /\ app' = [app EXCEPT ![a] = rest]
            /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, ids>>
       [] x.o = "join" ->
            /\ done
            /\ app' = [app EXCEPT ![a] = rest]
            /\ See([e |-> "str", id |-> CHOOSE i \in sv.stops : TRUE, t |-> 0])
            /\ UNCHANGED <<k, efd, tqW, needWake, running, ids>>
  /\ UNCHANGED <<ev0, im, done, work, wake, acc, bud>>

-----------------------------------------------------------------------------
(* The acceptor *)

AcceptOne(c) ==
  /\ acc = << >> /\ k[c].st = "backlog"
  /\ \A d \in Conns : d < c => k[d].st # "backlog"
  /\ k' = [k EXCEPT ![c].st = "accepted"]
  /\ See([e |-> "ac", c |-> c, t |-> 0])
  /\ acc' = <<[o |-> "nonblock", c |-> c]>>
  /\ UNCHANGED <<ev0, im, efd, tqW, needWake, running, done, work, wake, app, bud, ids>>

Count == Cardinality({c \in Conns : im[c].added})

AccStep ==
  /\ acc # << >>
  /\ LET x == Head(acc) rest == Tail(acc) IN
     CASE x.o = "nonblock" ->
            \/ /\ acc' = <<[o |-> "assign", c |-> x.c]>>
               /\ Unseen /\ UNCHANGED <<k, tqW, needWake, efd>>
            \/ /\ "nb" \in Fails
               /\ acc' = IF Variant = "nbleak" THEN << >> ELSE <<[o |-> "drop", c |-> x.c]>>
               /\ See([e |-> "nb", c |-> x.c]) /\ UNCHANGED <<k, tqW, needWake, efd>>
       [] x.o = "drop" ->
            /\ k' = [k EXCEPT ![x.c].open = FALSE]
            /\ acc' = rest
            /\ See([e |-> "kc", c |-> x.c, t |-> 0]) /\ UNCHANGED <<tqW, needWake, efd>>
       [] x.o = "assign" ->
            /\ acc' = QueueOps([k |-> "add", c |-> x.c])
            /\ See([e |-> "as", pick |-> 1, before |-> <<Count>>, after |-> <<Count>>, g |-> 0])
            /\ UNCHANGED <<k, tqW, needWake, efd>>
       [] x.o = "push" -> Push(x.t) /\ acc' = rest /\ Unseen /\ UNCHANGED <<k, needWake, efd>>
       [] x.o = "cas" -> /\ acc' = IF needWake THEN <<[o |-> "wake"]>> \o rest ELSE rest
                         /\ needWake' = FALSE /\ Unseen /\ UNCHANGED <<k, tqW, efd>>
       [] x.o = "wake" -> efd' = efd + 1 /\ acc' = rest /\ Unseen /\ UNCHANGED <<k, tqW, needWake>>
  /\ UNCHANGED <<ev0, im, running, done, work, wake, app, bud, ids>>

-----------------------------------------------------------------------------
(* The loop *)

Readable(c) == k[c].inq > 0 \/ k[c].fin # ""
Events(c) ==
  IF ~im[c].added \/ ~k[c].open THEN {}
  ELSE (IF k[c].fin = "rst" THEN {"err"} ELSE {})
       \cup (IF Readable(c) /\ "r" \in k[c].ints THEN {"r"} ELSE {})
       \cup (IF (k[c].cap > 0 \/ k[c].fin = "rst") /\ "w" \in k[c].ints THEN {"w"} ELSE {})
\* events that make the loop do something (blocked output with input waiting spins)
Effective(c) == Events(c) # {} /\ (im[c].out # << >> => Events(c) \cap {"w", "err"} # {})

RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN {<< >>} ELSE UNION {{<<x>> \o p : p \in Perm(S \ {x})} : x \in S}

\* a spurious wake-up says readable
Handle(c) == [o |-> "handle", c |-> c, m |-> IF Effective(c) THEN Events(c) ELSE {"r"}]

UNL == UNCHANGED <<ev0, acc, app, bud>>
Rest == Tail(work)

\* sendInLoop of pieces p
SendOps(c, p) == <<[o |-> "out", c |-> c, p |-> p]>>

LoopStep ==
  /\ work # << >>
  /\ LET x == Head(work) IN
     CASE x.o = "poll" ->
            /\ \E X \in SUBSET (IF "spur" \in Fails THEN {c \in Conns : im[c].added /\ k[c].open} ELSE {}) :
               LET S == {c \in Conns : Effective(c)} \cup X IN
               /\ S # {} \/ efd > 0
               /\ \E p \in Perm(S \cup (IF efd > 0 THEN {0} ELSE {})) :
                    work' = [i \in 1..Len(p) |-> IF p[i] = 0 THEN [o |-> "efd"] ELSE Handle(p[i])] \o <<[o |-> "after"]>>
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "efd" ->
            /\ efd' = 0 /\ wake' = TRUE /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, im, tqW, needWake, running, done, ids>>
       [] x.o = "after" ->
            /\ wake' = FALSE
            /\ work' = IF wake THEN <<[o |-> "drain"], [o |-> "chk"]>> ELSE <<[o |-> "poll"]>>
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, ids>>
       [] x.o = "drain" ->
            /\ IF Variant = "wakelast" THEN work' = <<[o |-> "swap"], [o |-> "setwake"]>> \o Rest /\ needWake' = needWake
               ELSE work' = <<[o |-> "swap"]>> \o Rest /\ needWake' = TRUE
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, running, done, wake, ids>>
       [] x.o = "setwake" ->
            /\ needWake' = TRUE /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, running, done, wake, ids>>
       [] x.o = "swap" ->
            /\ work' = [i \in 1..Len(tqW) |-> [o |-> "task", t |-> tqW[IF Variant = "lifo" THEN Len(tqW) + 1 - i ELSE i]]] \o Rest
            /\ tqW' = << >>
            /\ Unseen /\ UNCHANGED <<k, im, efd, needWake, running, done, wake, ids>>
       [] x.o = "chk" ->
            /\ work' = IF running THEN <<[o |-> "poll"]>>
                       ELSE CASE Variant = "nodrain" -> <<[o |-> "exit"]>>
                              [] Variant = "onedrain" -> <<[o |-> "drain"], [o |-> "exit"]>>
                              [] OTHER -> <<[o |-> "drain"], [o |-> "drain"], [o |-> "exit"]>>
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "exit" ->
            /\ done' = TRUE /\ work' = << >>
            /\ See([e |-> "stt", k |-> "ret", t |-> 0])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, wake, ids>>
       \* ---- tasks
       [] x.o = "task" ->
            LET t == x.t IN
            (CASE t.k = "user" ->
                   /\ work' = Rest
                   /\ See([e |-> "tr", id |-> t.id, l |-> 1, g |-> LoopG, t |-> 0])
                   /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
              [] t.k = "s" ->
                   /\ work' = (IF im[t.c].up \/ Variant = "sendnocheck" THEN SendOps(t.c, Piece(t.id, MsgLen)) \o (IF Fin = 1 THEN <<[o |-> "fn", c |-> t.c, id |-> t.id]>> ELSE << >>) ELSE << >>) \o Rest
                   /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
              [] t.k = "c" ->
                   /\ work' = <<[o |-> "close", c |-> t.c]>> \o Rest
                   /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
              [] t.k = "h" ->
                   /\ IF im[t.c].up
                      THEN /\ im' = [im EXCEPT ![t.c].shut = TRUE]
                           /\ work' = (IF im[t.c].out = << >> \/ Variant = "shutearly" THEN <<[o |-> "shut", c |-> t.c]>> ELSE << >>) \o Rest
                      ELSE im' = im /\ work' = Rest
                   /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, running, done, wake, ids>>
              [] t.k = "add" ->
                   /\ work' = <<[o |-> "oc2", c |-> t.c]>> \o Rest
                   /\ im' = [im EXCEPT ![t.c].known = TRUE]
                   /\ See([e |-> "oc", c |-> t.c, g |-> LoopG, fresh |-> TRUE, up |-> TRUE])
                   /\ UNCHANGED <<k, efd, tqW, needWake, running, done, wake, ids>>
              [] t.k = "all" ->
                   /\ \E p \in Perm({c \in Conns : im[c].added}) :
                        work' = FoldLeft(LAMBDA s, c : s \o (IF im[c].up THEN QueueOps([k |-> "c", c |-> c, id |-> 0]) ELSE << >>), << >>, p)
                                \o <<[o |-> "forget"]>> \o Rest
                   /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>)
       \* ---- QueueInLoop from the loop itself
       [] x.o = "push" ->
            /\ Push(x.t) /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, im, efd, needWake, running, done, wake, ids>>
       [] x.o = "cas" ->
            /\ work' = IF needWake THEN <<[o |-> "lwake"]>> \o Rest ELSE Rest
            /\ needWake' = FALSE
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, running, done, wake, ids>>
       [] x.o = "lwake" ->
            /\ efd' = efd + 1 /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, im, tqW, needWake, running, done, wake, ids>>
       [] x.o = "forget" ->
            /\ im' = [c \in Conns |-> [im[c] EXCEPT !.added = FALSE]]
            /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, running, done, wake, ids>>
       \* ---- a new connection
       [] x.o = "oc2" ->
            /\ work' = <<[o |-> "reg", c |-> x.c]>> \o Rest
            /\ See([e |-> "ocr", c |-> x.c])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "reg" ->
            \/ /\ im' = [im EXCEPT ![x.c].added = TRUE]
               /\ k' = [k EXCEPT ![x.c].ints = {"r"}]
               /\ work' = Rest
               /\ Unseen /\ UNCHANGED <<efd, tqW, needWake, running, done, wake, ids>>
            \/ /\ "add" \in Fails
               /\ work' = (IF Variant = "addleak" THEN << >> ELSE <<[o |-> "close", c |-> x.c]>>) \o Rest
               /\ See([e |-> "af", c |-> x.c])
               /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       \* ---- HandleEvent
       [] x.o = "handle" ->
            LET c == x.c IN
            /\ work' = (CASE ~im[c].added -> << >>
                          [] im[c].out # << >> -> IF "w" \in x.m \/ "err" \in x.m THEN <<[o |-> "flush", c |-> c]>> ELSE << >>
                          [] OTHER -> IF "r" \in x.m \/ "err" \in x.m THEN <<[o |-> "read", c |-> c]>> ELSE << >>) \o Rest
            /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "read" ->
            LET c == x.c
                n == IF k[c].inq < Pkt THEN k[c].inq ELSE Pkt IN
            IF k[c].fin = "rst"
            THEN /\ work' = <<[o |-> "close", c |-> c]>> \o Rest
                 /\ See([e |-> "rd", c |-> c, n |-> -1, err |-> 104, t |-> 0])
                 /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
            ELSE IF n > 0
            THEN /\ k' = [k EXCEPT ![c].inq = @ - n]
                 /\ work' = <<[o |-> "msg", c |-> c, n |-> n]>> \o Rest
                 /\ See([e |-> "rd", c |-> c, n |-> n, err |-> 0, t |-> 0])
                 /\ UNCHANGED <<im, efd, tqW, needWake, running, done, wake, ids>>
            ELSE IF k[c].fin = "half" \/ Variant = "eagainclose"
            THEN /\ work' = <<[o |-> "close", c |-> c]>> \o Rest
                 /\ See([e |-> "rd", c |-> c, n |-> 0, err |-> 0, t |-> 0])
                 /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
            ELSE /\ work' = Rest    \* would block
                 /\ Unseen /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "msg" ->
            /\ work' = <<[o |-> "msgret", c |-> x.c]>> \o Rest
            /\ See([e |-> "om", c |-> x.c, g |-> LoopG, f |-> cn[x.c].cons, n |-> x.n, ok |-> TRUE, own |-> TRUE])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "msgret" ->
            LET id == IF Reply = 0 THEN 0 ELSE NewId IN
            /\ ids' = IF Reply = 0 THEN ids ELSE NewId
            /\ work' = (IF Reply = 0 THEN << >> ELSE SendOps(x.c, Piece(id, Reply))) \o Rest
            /\ See([e |-> "omr", c |-> x.c, id |-> id, n |-> Reply])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake>>
       \* ---- output: sendInLoop and handleWrite
       [] x.o \in {"out", "flush"} ->
            LET c == x.c
                p == IF x.o = "out" THEN x.p ELSE im[c].out
                want == Total(p)
                n == IF want < k[c].cap THEN want ELSE k[c].cap
                s == Split(p, n)
            IN
            IF x.o = "out" /\ im[c].out # << >> /\ Variant # "bypass"
            THEN /\ im' = [im EXCEPT ![c].out = @ \o p]
                 /\ work' = Rest
                 /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, running, done, wake, ids>>
            ELSE IF k[c].fin = "rst"
            THEN /\ work' = <<[o |-> "close", c |-> c]>> \o Rest
                 /\ See([e |-> "wr", c |-> c, n |-> -1, want |-> want, err |-> 32, again |-> FALSE, segs |-> << >>, t |-> 0])
                 /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
            ELSE /\ k' = [k EXCEPT ![c].cap = @ - (IF @ >= Inf THEN 0 ELSE n)]
                 /\ im' = [im EXCEPT ![c].out = IF x.o = "out" THEN s.rest \o im[c].out ELSE s.rest]
                 /\ work' = (IF x.o = "out" THEN IF s.rest # << >> THEN <<[o |-> "int", c |-> c, s |-> IF Variant = "noenable" THEN {"r"} ELSE {"r", "w"}]>> ELSE << >>
                             ELSE IF s.rest = << >> THEN <<[o |-> "int", c |-> c, s |-> IF Variant = "wonly" THEN {"w"} ELSE {"r"}]>> \o (IF im[c].shut /\ Variant # "shutlost" THEN <<[o |-> "shut", c |-> c]>> ELSE << >>)
                             ELSE << >>) \o Rest
                 /\ See([e |-> "wr", c |-> c, n |-> IF n = 0 THEN -1 ELSE n, want |-> want, err |-> IF n = 0 THEN 11 ELSE 0, again |-> n = 0, segs |-> s.segs, t |-> 0])
                 /\ UNCHANGED <<efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "int" ->
            /\ k' = [k EXCEPT ![x.c].ints = x.s]
            /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "fn" ->
            /\ work' = Rest
            /\ See([e |-> "fn", c |-> x.c, id |-> x.id, g |-> LoopG, ok |-> TRUE, wbl |-> Total(im[x.c].out)])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "shut" ->
            /\ work' = Rest
            /\ k' = [k EXCEPT ![x.c].wr = FALSE]
            /\ See([e |-> "ks", c |-> x.c, how |-> 1])
            /\ UNCHANGED <<im, efd, tqW, needWake, running, done, wake, ids>>
       \* ---- handleClose
       [] x.o = "close" ->
            /\ IF im[x.c].up \/ Variant = "closetwice"
               THEN /\ im' = [im EXCEPT ![x.c].up = FALSE, ![x.c].added = FALSE]
                    /\ work' = <<[o |-> "ox", c |-> x.c]>> \o Rest
               ELSE im' = im /\ work' = Rest
            /\ Unseen /\ UNCHANGED <<k, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "ox" ->
            /\ work' = <<[o |-> "oxr", c |-> x.c]>> \o Rest
            /\ See([e |-> "ox", c |-> x.c, g |-> LoopG, up |-> im[x.c].up, own |-> TRUE, t |-> 0])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "oxr" ->
            /\ work' = <<[o |-> "kc", c |-> x.c]>> \o Rest
            /\ See([e |-> "oxr", c |-> x.c])
            /\ UNCHANGED <<k, im, efd, tqW, needWake, running, done, wake, ids>>
       [] x.o = "kc" ->
            /\ work' = Rest
            /\ k' = [k EXCEPT ![x.c].open = FALSE]
            /\ See([e |-> "kc", c |-> x.c, t |-> 0])
            /\ UNCHANGED <<im, efd, tqW, needWake, running, done, wake, ids>>
  /\ UNL

-----------------------------------------------------------------------------
(* The peers *)
Alive(c) == k[c].open /\ k[c].st # "refused"

PeerStep(c) ==
  /\ Alive(c)
  /\ \/ /\ k[c].sent < MaxIn /\ k[c].fin = ""
        /\ k' = [k EXCEPT ![c].inq = @ + 1, ![c].sent = @ + 1]
        /\ See([e |-> "in", c |-> c, n |-> 1, t |-> 0])
     \/ \E how \in Ends :
          /\ k[c].fin = ""
          /\ k' = [k EXCEPT ![c].fin = how]
          /\ See([e |-> "fin", c |-> c, k |-> how])
     \/ /\ k[c].cap < 1 /\ im[c].out # << >>
        /\ k' = [k EXCEPT ![c].cap = 1]
        /\ See([e |-> "cap", c |-> c, n |-> 1])
  /\ UNCHANGED <<ev0, im, efd, tqW, needWake, running, done, work, wake, acc, app, bud, ids>>

-----------------------------------------------------------------------------
(* Quiescence: everything waits; the contract says what must be so by now *)
LoopIdle == IF work = << >> THEN TRUE ELSE Head(work).o = "poll" /\ efd = 0 /\ \A c \in Conns : ~Effective(c)
Quiescent ==
  /\ Ready /\ LoopIdle /\ acc = << >>
  /\ \A c \in Conns : k[c].st # "backlog"
  /\ \A a \in Apps : IF app[a] = << >> THEN TRUE ELSE Head(app[a]).o = "join" /\ ~done

View(c) ==
  [ c |-> c, unread |-> k[c].inq, cap |-> k[c].cap, closed |-> ~k[c].open, acc |-> TRUE,
    known |-> im[c].known, up |-> im[c].up, wbl |-> Total(im[c].out), rbl |-> 0, own |-> TRUE ]

QuietEvent ==
  LET S == {c \in Conns : k[c].st = "accepted"}
      ids2 == SetToSortSeq(S, <)
  IN [e |-> "q", cs |-> [i \in 1..Len(ids2) |-> View(ids2[i])], counts |-> <<IF sv.sret THEN 0 ELSE Count>>, t |-> 0]

\* Quiet changes nothing but what the next Stop is entitled to: one step suffices
Rests ==
  /\ Quiescent
  /\ See(QuietEvent)
  /\ UNCHANGED <<ev0, k, im, efd, tqW, needWake, running, done, work, wake, acc, app, bud, ids>>

-----------------------------------------------------------------------------
AlgNext ==
  \/ Setup
  \/ /\ Ready
     /\ \/ \E a \in Apps : Begin(a) \/ AppStep(a)
        \/ \E c \in Conns : AcceptOne(c) \/ PeerStep(c)
        \/ AccStep
        \/ LoopStep
        \/ Rests

AlgSpec == AlgInit /\ [][AlgNext]_avars /\ WF_avars(LoopStep) /\ WF_avars(AccStep) /\ \A a \in Apps : WF_avars(AppStep(a))

Stop1 == ok \* explore no further once the contract is broken

\* the design implements the contract
Implements == ok

(* The contract's consequences, stated directly over histories *)
\* C02: messages leave whole and in the order of one goroutine; nothing is invented
OutputSound == \A c \in DOMAIN cn : cn[c].taken <= cn[c].acc /\ (cn[c].cur # 0 => cn[c].cur \notin cn[c].done)
\* C01
InputSound == \A c \in DOMAIN cn : cn[c].cons <= cn[c].rd /\ cn[c].rd <= cn[c].arr
\* C04, C05
LifeSound == \A c \in DOMAIN cn : /\ cn[c].ox > 0 => cn[c].oc = 2 \/ cn[c].af
                                  /\ cn[c].kc => cn[c].nb \/ cn[c].ox = 2
                                  /\ cn[c].cons > 0 => cn[c].oc = 2
\* C06
TasksSound == \A i \in DOMAIN tk : tk[i].run <= 1
Sound == OutputSound /\ InputSound /\ LifeSound /\ TasksSound

(* Liveness: with fair goroutines, everything owed happens *)
EveryTaskRuns == \A i \in 1..8 : (IF i \in DOMAIN tk THEN tk[i].ret /\ ~sv.stopCalled ELSE FALSE) ~> (IF i \in DOMAIN tk THEN tk[i].run = 1 \/ sv.stopCalled ELSE FALSE)
StopReturns == (sv.stops # {}) ~> (sv.stops = {})
=============================================================================
