-------------------------------- MODULE Gev --------------------------------
(***************************************************************************)
(* The contract of a gev server, as a state machine.                       *)
(*                                                                         *)
(* The state is what an observer of one server can know: per connection    *)
(* what has arrived, been read, been presented to the protocol and been    *)
(* handled; which messages were accepted and which bytes of them the       *)
(* socket took; which callbacks have begun and ended, on which goroutine;  *)
(* what the application asked for (Send, Close, ShutdownWrite, Stop,       *)
(* tasks, timers) and what it was answered.  Actions are the observable    *)
(* steps: system calls of the server, callbacks, API calls and returns,    *)
(* and the environment's steps (peers, kernel, clock).  A quiescent point  *)
(* (Quiet) is an action too: it is enabled only if nothing that is owed is *)
(* still outstanding, which turns "eventually, without further stimulus"   *)
(* into safety.                                                            *)
(*                                                                         *)
(* Every guard carries the properties (C01..C22) it belongs to, and is in  *)
(* force if Prop is one of them or "all".  Alg checks the design of the    *)
(* implementation against this machine, exhaustively for small constants   *)
(* and with every guard in force; GevTrace replays traces recorded from    *)
(* the real server against the same actions.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Prop

Chk(ps, cond) == (Prop = "all" \/ Prop \in ps) => cond

VARIABLES
  cn,    \* connection id -> its state
  ms,    \* message id -> message
  tk,    \* task id -> task queued in a loop
  tm,    \* timer id -> timer
  lp,    \* loop number -> goroutine (0: not known yet), open callback, count of conns
  sv     \* the server

vars == <<cn, ms, tk, tm, lp, sv>>

Tol == 3000     \* tolerance for timers, in microseconds: three ticks

None == ""

NewConn(cap) ==
  [ ac |-> FALSE, nb |-> FALSE, af |-> FALSE, loop |-> 0,
    oc |-> 0, ox |-> 0, kc |-> FALSE,                \* 0 no, 1 begun, 2 ended
    arr |-> 0, fin |-> None, rd |-> 0, cons |-> 0,   \* inbound bytes
    upr |-> 0, upc |-> 0,                            \* what the last UnPacket saw
    acc |-> 0, taken |-> 0, cur |-> 0, done |-> {}, ret |-> {}, rep |-> {},
    blk |-> FALSE, eof |-> FALSE, hard |-> FALSE, sawc |-> FALSE,
    hpre |-> {}, hcalled |-> FALSE, hok |-> FALSE, ks |-> FALSE, post |-> FALSE,
    tin |-> 0, tany |-> 0, due |-> -1 ]

GevInit ==
  /\ cn = << >>
  /\ ms = << >>
  /\ tk = << >>
  /\ tm = << >>
  /\ lp = << >>
  /\ sv = [ started |-> FALSE, sure |-> FALSE, sret |-> FALSE, t0 |-> 0,
            gone |-> {},    \* calls made after OnClose of their connection had begun
            stops |-> {}, stopCalled |-> FALSE, sureStop |-> FALSE, dead |-> FALSE, deadT |-> 0,
            pend |-> 0, nas |-> 0,
            lag |-> 0, lagT |-> 0,   \* by how much goroutines were held up altogether, and until when
            idle |-> 0, strat |-> "rr", proto |-> "default", nloops |-> 1 ]

Known(c) == c \in DOMAIN cn
UpdC(c, r) == cn' = [cn EXCEPT ![c] = r]
G(l) == IF l \in DOMAIN lp THEN lp[l].g ELSE 0
\* goroutine g is (or may be) the one that runs loop l
RunsLoop(g, l) == (G(l) = 0 \/ G(l) = g) /\ \A k \in DOMAIN lp : k # l => lp[k].g # g
Learn(g, l, b) == IF l \in DOMAIN lp THEN [lp EXCEPT ![l] = [@ EXCEPT !.g = IF @ = 0 THEN g ELSE @, !.busy = b]] ELSE lp
Busy(l) == IF l \in DOMAIN lp THEN lp[l].busy ELSE 0
Free(l) == IF l \in DOMAIN lp THEN [lp EXCEPT ![l].busy = 0] ELSE lp

Has(c) == ~cn[c].kc /\ cn[c].ac
Announced(c) == cn[c].oc = 2 /\ cn[c].ox = 0
\* The idle period has elapsed; or it had when the latest input came in, and the
\* connection is being closed for that (input that comes at the very instant).
IdleDue(c, t) == sv.idle > 0 /\ (t - cn[c].tin + sv.lag >= sv.idle \/ (cn[c].due >= 0 /\ t - cn[c].due <= 1000 + sv.lag))

(* Why connection c may end now. An orderly end of input alone counts only  *)
(* once it was read, and after everything before it.                        *)
Cause(c, t) ==
  \/ cn[c].hard
  \/ cn[c].af
  \/ cn[c].nb
  \/ sv.stopCalled
  \/ IdleDue(c, t)
  \/ cn[c].eof /\ cn[c].rd = cn[c].arr

Stutter == UNCHANGED vars

UNCH(S) == /\ ("cn" \in S => UNCHANGED cn) /\ ("ms" \in S => UNCHANGED ms) /\ ("tk" \in S => UNCHANGED tk)
           /\ ("tm" \in S => UNCHANGED tm) /\ ("lp" \in S => UNCHANGED lp) /\ ("sv" \in S => UNCHANGED sv)

-----------------------------------------------------------------------------
(* Making a server, Start and Stop *)

\* NewServer returned; hit: a system call failed on the way. What a failed one
\* opened is closed, and the address is free. (Descriptors, epoll instances
\* and goroutines there are now and were not before.)
Make(ok, hit, dial, fd, ep, g) ==
  /\ Chk({"C22"}, ok = ~hit)
  /\ Chk({"C22"}, ~ok => ~dial /\ fd = 0 /\ ep = 0 /\ g = 0)
  /\ Stutter

\* what there is of a server that has been stopped
Left(fd, ep, sock, g) ==
  /\ Chk({"C22"}, fd = 0 /\ ep = 0 /\ sock = 0 /\ g = 0)
  /\ Stutter

\* another server at the address of one that was stopped
Again(ok) == Chk({"C22", "C09"}, ok) /\ Stutter

StartCall(t) ==
  /\ sv' = [sv EXCEPT !.started = TRUE, !.t0 = t]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

StartRet(t) ==
  \* Start returns only because of Stop
  /\ Chk({"C09", "C18"}, sv.stopCalled)
  /\ sv' = [sv EXCEPT !.sret = TRUE]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

StopCall(id, t) ==
  /\ sv' = [sv EXCEPT !.stops = @ \cup {id}, !.stopCalled = TRUE, !.sureStop = @ \/ sv.sure]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

AllGone == \A c \in DOMAIN cn : cn[c].ac => cn[c].kc /\ (cn[c].oc # 0 => cn[c].ox = 2)
\* tasks whose queueing had completed before Stop was called
TasksRun == \A k \in DOMAIN tk : tk[k].owed => tk[k].run = 1

StopRet(id, t) ==
  LET last == sv.stops = {id} IN
  \* the last of several concurrent Stops to return leaves nothing behind
  /\ Chk({"C09", "C05"}, last /\ sv.sureStop => AllGone)
  /\ Chk({"C06", "C09"}, last /\ sv.sureStop => TasksRun)
  /\ sv' = [sv EXCEPT !.stops = @ \ {id},
                      !.dead = @ \/ (last /\ sv.sureStop),
                      !.deadT = IF ~sv.dead /\ last /\ sv.sureStop THEN t ELSE @]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

Dial(ok) ==
  /\ Chk({"C09"}, sv.dead => ~ok)
  /\ Chk({"C09", "C18"}, sv.sure /\ ~sv.stopCalled => ok)
  /\ UNCH({"cn", "ms", "tk", "tm", "lp", "sv"})

-----------------------------------------------------------------------------
(* The environment: peers and kernel *)

Connect(c, cap, t) ==
  /\ cn' = (c :> NewConn(cap)) @@ cn
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

Arrive(c, n, t) ==
  /\ UpdC(c, [cn[c] EXCEPT !.arr = @ + n])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

PeerEnds(c, how) ==
  /\ UpdC(c, [cn[c] EXCEPT !.fin = IF @ \in {None, "half"} \/ how = "rst" THEN how ELSE @, !.hard = @ \/ how = "rst"])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

\* goroutines that could have run were held up for d microseconds
HeldUp(d, t) ==
  /\ sv' = [sv EXCEPT !.lag = @ + d, !.lagT = t]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

\* A loop is told again and again what it was told, and does nothing about it.
Spins == Chk({"C21"}, FALSE) /\ Stutter

-----------------------------------------------------------------------------
(* Accepting and announcing *)

Accept(c, t) ==
  /\ UpdC(c, [cn[c] EXCEPT !.ac = TRUE, !.tin = t, !.tany = t])
  /\ sv' = [sv EXCEPT !.pend = c]
  /\ UNCH({"ms", "tk", "tm", "lp"})

\* the socket cannot be made non-blocking: it must be closed, unannounced
SetupFails(c) ==
  /\ UpdC(c, [cn[c] EXCEPT !.nb = TRUE])
  /\ sv' = [sv EXCEPT !.pend = 0]
  /\ UNCH({"ms", "tk", "tm", "lp"})

\* the strategy is consulted; before and after are the loops' counts around it
Assign(pick, before, after, g) ==
  LET n == Len(before) IN
  /\ Chk({"C08", "C07"}, sv.pend # 0)
  /\ Chk({"C08", "C09"}, pick \in 1..n /\ n = sv.nloops)
  /\ Chk({"C08"}, \A i \in 1..n : before[i] >= 0 /\ after[i] >= 0)
  /\ Chk({"C08"}, sv.strat = "rr" => pick = (sv.nas % n) + 1)
  /\ Chk({"C08"}, sv.strat = "lc" =>
        \A i \in 1..n : (IF before[pick] < after[pick] THEN before[pick] ELSE after[pick])
                        <= (IF before[i] > after[i] THEN before[i] ELSE after[i]))
  /\ Chk({"C08"}, (sv.strat = "last" => pick = n) /\ (sv.strat = "first" => pick = 1))
  /\ lp' = [i \in 1..n |-> IF i \in DOMAIN lp THEN lp[i] ELSE [g |-> 0, busy |-> 0]]
  /\ sv' = [sv EXCEPT !.pend = 0, !.nas = @ + 1]
  /\ IF sv.pend # 0 THEN UpdC(sv.pend, [cn[sv.pend] EXCEPT !.loop = pick]) ELSE UNCHANGED cn
  /\ UNCH({"ms", "tk", "tm"})

LoopRuns(l, g) ==
  /\ Chk({"C04", "C06", "C08"}, RunsLoop(g, l))
  /\ lp' = Learn(g, l, Busy(l))
  /\ UNCH({"cn", "ms", "tk", "tm", "sv"})

RegisterFails(c) ==
  /\ UpdC(c, [cn[c] EXCEPT !.af = TRUE])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

CallbackOK(c, g) ==
  /\ Chk({"C04", "C06", "C08", "C19"}, RunsLoop(g, cn[c].loop))
  /\ Chk({"C04"}, Busy(cn[c].loop) = 0)
  /\ Chk({"C09"}, ~sv.dead)

OnConnect(c, g, fresh, up) ==
  /\ CallbackOK(c, g)
  /\ Chk({"C04", "C05", "C09", "C18"}, cn[c].ac /\ ~cn[c].nb /\ cn[c].oc = 0 /\ cn[c].ox = 0)
  /\ Chk({"C04", "C08"}, cn[c].loop # 0)
  /\ Chk({"C07", "C16"}, fresh)
  /\ Chk({"C04", "C05"}, up)
  /\ UpdC(c, [cn[c] EXCEPT !.oc = 1])
  /\ lp' = Learn(g, cn[c].loop, c)
  /\ UNCH({"ms", "tk", "tm", "sv"})

OnConnectRet(c) ==
  /\ UpdC(c, [cn[c] EXCEPT !.oc = 2])
  /\ lp' = Free(cn[c].loop)
  /\ UNCH({"ms", "tk", "tm", "sv"})

-----------------------------------------------------------------------------
(* Input *)

\* read(2) returned n bytes (0: end of input), or failed for good (err)
Read(c, n, err, t) ==
  /\ Chk({"C05", "C07"}, cn[c].ox = 0 /\ ~cn[c].kc)
  /\ Chk({"C03"}, err = 0 => ~cn[c].blk)
  /\ UpdC(c, [cn[c] EXCEPT !.rd = @ + (IF n > 0 THEN n ELSE 0),
                           !.eof = @ \/ (n = 0 /\ err = 0),
                           !.hard = @ \/ err # 0,
                           !.due = IF n > 0 /\ sv.idle > 0 /\ t - cn[c].tin + sv.lag >= sv.idle THEN t ELSE @,
                           !.tin = IF n > 0 THEN t ELSE @,
                           !.tany = IF n > 0 THEN t ELSE @])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

\* UnPacket is shown the n bytes from offset f on; ok: they are what was sent
Present(c, f, n, ok) ==
  /\ Chk({"C01", "C07", "C16"}, ok /\ f = cn[c].cons)
  /\ Chk({"C01", "C03"}, n = cn[c].rd - cn[c].cons)
  /\ UpdC(c, [cn[c] EXCEPT !.upr = cn[c].rd, !.upc = cn[c].cons])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

OnMessage(c, g, f, n, ok, own) ==
  /\ CallbackOK(c, g)
  /\ Chk({"C04", "C05"}, cn[c].oc = 2 /\ cn[c].ox = 0)
  /\ Chk({"C01", "C07"}, ok)
  /\ Chk({"C01"}, f = cn[c].cons /\ n > 0 /\ f + n <= cn[c].rd)
  /\ Chk({"C03"}, ~cn[c].blk)
  /\ Chk({"C07"}, own)
  /\ UpdC(c, [cn[c] EXCEPT !.cons = @ + n])
  /\ lp' = Learn(g, cn[c].loop, c)
  /\ UNCH({"ms", "tk", "tm", "sv"})

NewMsg(c, n, pre, fin, kind) ==
  [c |-> c, n |-> n, pre |-> pre, fin |-> fin, kind |-> kind, r |-> None, pk |-> 0, fn |-> 0]

\* OnMessage returns, with reply id of n bytes or none (id = 0)
OnMessageRet(c, id, n) ==
  /\ lp' = Free(cn[c].loop)
  /\ IF id = 0 THEN UNCHANGED <<cn, ms>>
     ELSE /\ ms' = (id :> [NewMsg(c, n, cn[c].rep, 0, "r") EXCEPT !.r = "ok"]) @@ ms
          /\ UpdC(c, [cn[c] EXCEPT !.acc = @ + n, !.rep = IF n > 0 THEN {id} ELSE @,
                                   !.ret = IF n > 0 THEN @ \cup {id} ELSE @,
                                   !.post = @ \/ cn[c].hcalled])
  /\ UNCH({"tk", "tm", "sv"})

-----------------------------------------------------------------------------
(* Output *)

SendCall(c, id, n, fin) ==
  /\ ms' = (id :> [NewMsg(c, n, {m \in cn[c].ret : ms[m].kind = "s"}, fin, "s")
                     EXCEPT !.pk = IF cn[c].ox = 0 THEN 0 ELSE -1]) @@ ms
  /\ UpdC(c, [cn[c] EXCEPT !.acc = @ + n, !.post = @ \/ cn[c].hcalled])
  /\ UNCH({"tk", "tm", "lp", "sv"})

\* pk = -1 marks a Send whose call came after OnClose
SendRet(c, id, r) ==
  /\ Chk({"C05"}, r \in {"ok", "closed"})
  /\ Chk({"C05", "C07"}, ms[id].pk = -1 => r = "closed")
  /\ Chk({"C05", "C02"}, r = "closed" => cn[c].cur # id /\ id \notin cn[c].done)
  /\ Chk({"C05", "C19"}, r = "closed" => ms[id].fn = 0)
  /\ ms' = [ms EXCEPT ![id].r = r]
  /\ UpdC(c, [cn[c] EXCEPT !.ret = IF r = "ok" /\ ms[id].n > 0 THEN @ \cup {id} ELSE @,
                           !.acc = IF r = "ok" THEN @ ELSE @ - ms[id].n,
                           !.sawc = @ \/ r # "ok"])
  /\ UNCH({"tk", "tm", "lp", "sv"})

\* the loop of c encodes message id (seen only with a custom protocol)
Encode(c, id, g) ==
  /\ Chk({"C07"}, id \in DOMAIN ms => ms[id].c = c)
  /\ ms' = IF id \in DOMAIN ms /\ G(cn[c].loop) = g /\ ms[id].pk = 0
           THEN [ms EXCEPT ![id].pk = IF cn[c].ox = 0 THEN 1 ELSE 2] ELSE ms
  /\ UNCH({"cn", "tk", "tm", "lp", "sv"})

\* the connection's output after the pieces in segs; ok = FALSE if they do not fit
Take(r0, c, segs) ==
  LET Piece(x, s) ==
        LET r == x.r
            fit == /\ s.id \in DOMAIN ms
                   /\ ms[s.id].c = c /\ ms[s.id].n = s.n /\ ms[s.id].r # "closed"
                   /\ IF s.f = 0 THEN r.cur = 0 /\ s.id \notin r.done /\ ms[s.id].pre \subseteq r.done
                      ELSE r.cur = s.id
        IN IF ~x.ok \/ ~fit THEN [x EXCEPT !.ok = FALSE]
           ELSE [x EXCEPT !.r = IF s.to = s.n THEN [r EXCEPT !.cur = 0, !.done = @ \cup {s.id}]
                                ELSE [r EXCEPT !.cur = s.id]]
  IN FoldLeft(Piece, [ok |-> TRUE, r |-> r0], segs)

\* write(2) took n of want bytes, which complete the pieces segs
Write(c, n, want, err, again, segs, t) ==
  LET x == Take(cn[c], c, segs) IN
  /\ Chk({"C05", "C07"}, cn[c].ox = 0 /\ ~cn[c].kc)
  /\ Chk({"C02", "C07", "C20"}, x.ok)
  /\ Chk({"C02", "C07"}, n > 0 => cn[c].taken + n <= cn[c].acc)
  /\ UpdC(c, [x.r EXCEPT
        !.taken = @ + (IF n > 0 THEN n ELSE 0),
        !.blk = IF want = 0 THEN @ ELSE (err = 0 \/ again) /\ n < want,
        !.hard = @ \/ (err # 0 /\ ~again) \/ (n > 0 /\ cn[c].fin = "gone"),
        !.tany = IF n > 0 THEN t ELSE @])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

\* the completion function of Send id runs
Finish(c, id, g, ok, wbl) ==
  LET m == ms[id] custom == sv.proto # "default" IN
  /\ Chk({"C19"}, m.fin = 1 /\ m.fn = 0 /\ m.c = c /\ ok)
  /\ Chk({"C19"}, m.r # "closed" /\ m.pk # -1)
  /\ Chk({"C19", "C04"}, RunsLoop(g, cn[c].loop))
  /\ Chk({"C19"}, custom /\ m.n > 0 => m.pk = 1)
  /\ Chk({"C19"}, custom => \A p \in m.pre : ms[p].pk = 1)
  /\ Chk({"C19"}, \A x \in DOMAIN ms : id \in ms[x].pre => ms[x].pk # 1 /\ x \notin cn[c].done /\ x # cn[c].cur /\ ms[x].fn = 0)
  /\ Chk({"C19", "C16"}, wbl >= 0)
  /\ Chk({"C09"}, ~sv.dead)
  /\ Chk({"C19"}, ~custom /\ cn[c].ox = 0 /\ ~cn[c].blk /\ ~cn[c].hard => m.n = 0 \/ id \in cn[c].done)
  /\ ms' = [ms EXCEPT ![id].fn = 1]
  /\ lp' = Learn(g, cn[c].loop, Busy(cn[c].loop))
  /\ UNCH({"cn", "tk", "tm", "sv"})

-----------------------------------------------------------------------------
(* ShutdownWrite *)

ShutCall(c, id) ==
  /\ ms' = (id :> [NewMsg(c, 0, {}, 0, "h") EXCEPT !.pk = IF cn[c].ox = 0 THEN 0 ELSE -1]) @@ ms
  /\ UpdC(c, [cn[c] EXCEPT !.hcalled = @ \/ cn[c].ox = 0,
                           !.hpre = IF cn[c].hcalled THEN @ ELSE cn[c].ret])
  /\ UNCH({"tk", "tm", "lp", "sv"})

ShutRet(c, id, r) ==
  /\ Chk({"C05", "C20"}, r \in {"ok", "closed"})
  /\ Chk({"C05", "C20"}, ms[id].pk = -1 => r = "closed")
  /\ ms' = [ms EXCEPT ![id].r = r]
  /\ UpdC(c, [cn[c] EXCEPT !.hok = @ \/ r = "ok", !.sawc = @ \/ r # "ok"])
  /\ UNCH({"tk", "tm", "lp", "sv"})

\* shutdown(2): only for a ShutdownWrite, only the write side, and only after
\* everything sent before the call was taken
HalfClose(c, how) ==
  /\ Chk({"C20", "C07"}, cn[c].hcalled)
  /\ Chk({"C20"}, how = 1)
  /\ Chk({"C20", "C02"}, cn[c].hpre \subseteq cn[c].done)
  /\ Chk({"C05", "C07"}, cn[c].ox = 0 /\ ~cn[c].kc)
  /\ UpdC(c, [cn[c] EXCEPT !.ks = TRUE])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

-----------------------------------------------------------------------------
(* Ending *)

Called(c, id) == sv' = IF cn[c].ox # 0 THEN [sv EXCEPT !.gone = @ \cup {id}] ELSE sv

CloseCall(c, id) ==
  /\ UpdC(c, [cn[c] EXCEPT !.hard = TRUE])
  /\ Called(c, id)
  /\ UNCH({"ms", "tk", "tm", "lp"})

CloseRet(c, id, r) ==
  /\ Chk({"C05"}, r \in {"ok", "closed"})
  /\ Chk({"C05"}, id \in sv.gone => r = "closed")
  /\ UpdC(c, [cn[c] EXCEPT !.sawc = @ \/ r # "ok"])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

LookCall(c, id) == Called(c, id) /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

LookRet(c, id, up) ==
  /\ Chk({"C05"}, id \in sv.gone => ~up)
  /\ UpdC(c, [cn[c] EXCEPT !.sawc = @ \/ ~up])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

OnClose(c, g, up, own, t) ==
  /\ CallbackOK(c, g)
  /\ Chk({"C04", "C05", "C18"}, cn[c].oc = 2 /\ cn[c].ox = 0)
  /\ Chk({"C05", "C04", "C07", "C01", "C02", "C03", "C10", "C16", "C18", "C20"}, Cause(c, t))
  /\ Chk({"C05"}, ~up)
  /\ Chk({"C07"}, own)
  /\ UpdC(c, [cn[c] EXCEPT !.ox = 1])
  /\ lp' = Learn(g, cn[c].loop, c)
  /\ UNCH({"ms", "tk", "tm", "sv"})

OnCloseRet(c) ==
  /\ UpdC(c, [cn[c] EXCEPT !.ox = 2])
  /\ lp' = Free(cn[c].loop)
  /\ UNCH({"ms", "tk", "tm", "sv"})

\* close(2) of the connection's socket
Release(c, t) ==
  /\ Chk({"C05", "C07"}, ~cn[c].kc)
  /\ Chk({"C05", "C07", "C18"}, Cause(c, t))
  /\ UpdC(c, [cn[c] EXCEPT !.kc = TRUE])
  /\ UNCH({"ms", "tk", "tm", "lp", "sv"})

-----------------------------------------------------------------------------
(* Tasks queued in a loop *)

TaskCall(id, l) ==
  /\ tk' = (id :> [l |-> l, pre |-> {k \in DOMAIN tk : tk[k].l = l /\ tk[k].ret /\ tk[k].run = 0},
                   ret |-> FALSE, run |-> 0, owed |-> FALSE]) @@ tk
  /\ UNCH({"cn", "ms", "tm", "lp", "sv"})

TaskQueued(id) ==
  /\ tk' = [tk EXCEPT ![id].ret = TRUE, ![id].owed = ~sv.stopCalled]
  /\ UNCH({"cn", "ms", "tm", "lp", "sv"})

TaskRun(id, l, g) ==
  /\ Chk({"C06"}, tk[id].run = 0)
  /\ Chk({"C06"}, \A p \in tk[id].pre : tk[p].run = 1)
  /\ Chk({"C06", "C04"}, RunsLoop(g, l))
  /\ Chk({"C09"}, ~sv.dead)
  /\ tk' = [tk EXCEPT ![id].run = @ + 1]
  /\ lp' = Learn(g, l, Busy(l))
  /\ UNCH({"cn", "ms", "tm", "sv"})

-----------------------------------------------------------------------------
(* Timers: t0 is when the interval began to count *)

TimerSet(id, d, every, t) ==
  /\ tm' = (id :> [t0 |-> t, t1 |-> t, d |-> d, every |-> every, fires |-> 0, off |-> -1, dn |-> FALSE]) @@ tm
  /\ UNCH({"cn", "ms", "tk", "lp", "sv"})

TimerSetRet(id, t) ==
  /\ tm' = [tm EXCEPT ![id].t1 = t]
  /\ UNCH({"cn", "ms", "tk", "lp", "sv"})

\* A timer that is overdue when the wheel starts fires then, and so does one that
\* is overdue when goroutines that were held up go on. A run that was due when
\* its timer or the server was stopped may have begun.
TimerFire(id, t) ==
  LET x == tm[id] k == x.fires + 1
      due == x.t1 + k * x.d
      late == IF sv.t0 > sv.lagT THEN sv.t0 ELSE sv.lagT
      slack == Tol + (sv.lag \div 2)   \* missed periods are made up for one at a time
  IN
  /\ Chk({"C11", "C09"}, sv.started)
  /\ Chk({"C11"}, x.off < 0 \/ (x.every /\ x.t0 + k * x.d <= x.off + 1000))
  /\ Chk({"C11"}, x.every \/ x.fires = 0)
  /\ Chk({"C11"}, t + 1000 >= x.t0 + k * x.d)
  /\ Chk({"C11"}, t <= (IF late > due THEN late ELSE due) + slack)
  /\ Chk({"C11", "C09"}, sv.dead => t <= sv.deadT + 1000 \/ (x.t0 + k * x.d <= sv.deadT + 1000 /\ t <= sv.lagT + slack))
  /\ tm' = [tm EXCEPT ![id].fires = k]
  /\ UNCH({"cn", "ms", "tk", "lp", "sv"})

TimerStop(id, r, t) ==
  /\ Chk({"C11"}, ~tm[id].every /\ tm[id].fires > 0 => ~r)
  /\ tm' = [tm EXCEPT ![id].off = IF r THEN t ELSE @, ![id].dn = TRUE]
  /\ UNCH({"cn", "ms", "tk", "lp", "sv"})

TimersMet(t) ==
  \A id \in DOMAIN tm :
    LET x == tm[id]
        b == IF sv.t0 > x.t1 THEN sv.t0 ELSE x.t1
    IN ~x.dn => x.fires >= (IF t - x.t1 - Tol < x.d \/ t < sv.t0 + Tol THEN 0
                             ELSE IF x.every THEN (t - x.t1 - Tol) \div x.d ELSE 1)

-----------------------------------------------------------------------------
(* Quiescence: every goroutine of the server waits. What is owed by now?    *)

Blocked(c) == cn[c].acc > cn[c].taken

\* x is the kernel's and the API's view of connection c, still open
QuietOpen(c, x, t) ==
  LET k == cn[c] IN
  /\ Chk({"C04", "C05", "C09", "C18"}, k.oc = 2 /\ k.ox = 0)
  /\ Chk({"C05", "C04"}, x.up /\ ~k.sawc)
  /\ Chk({"C07"}, x.own)
  \* input
  /\ Chk({"C01", "C03", "C07", "C18", "C20"}, x.unread > 0 => Blocked(c))
  /\ Chk({"C01", "C03", "C18"}, IF sv.proto = "default" THEN k.cons = k.rd ELSE k.rd > k.cons => k.upr = k.rd /\ k.upc = k.cons)
  \* output
  /\ Chk({"C02", "C03", "C07", "C16", "C18", "C20"}, Blocked(c) /\ ~k.post => x.cap = 0)
  /\ Chk({"C16"}, ~k.post => x.wbl = k.acc - k.taken)
  /\ Chk({"C16"}, x.rbl = k.rd - k.cons)
  \* ending
  /\ Chk({"C05", "C18"}, ~k.hard /\ ~k.af)
  /\ Chk({"C05", "C03", "C20"}, k.fin # None => Blocked(c))
  /\ Chk({"C20"}, k.hok /\ ~Blocked(c) => k.ks)
  /\ Chk({"C10"}, sv.idle > 0 => t - k.tany <= sv.idle + Tol + sv.lag)
  /\ Chk({"C19"}, \A id \in DOMAIN ms : ms[id].c = c /\ ms[id].fin = 1 /\ ms[id].r = "ok" => ms[id].fn = 1)

QuietClosed(c, x, t) ==
  LET k == cn[c] IN
  /\ Chk({"C05", "C07", "C18"}, k.kc)
  /\ Chk({"C05", "C04", "C18"}, IF k.nb THEN k.oc = 0 ELSE k.oc = 2 /\ k.ox = 2)
  /\ Chk({"C05"}, x.known => ~x.up)
  /\ Chk({"C19"}, \A id \in DOMAIN ms : ms[id].c = c /\ ms[id].fin = 1 /\ ms[id].pk = 1 => ms[id].fn = 1)

CountOf(l) == Cardinality({c \in DOMAIN cn : cn[c].loop = l /\ cn[c].oc = 2 /\ cn[c].ox = 0})

Quiet(cs, counts, t) ==
  LET run == sv.started /\ ~sv.sret
      ended == sv.sret
  IN
  /\ Chk({"C09"}, sv.stops = {})
  /\ Chk({"C09"}, sv.sureStop => sv.sret)
  /\ \A i \in 1..Len(cs) :
       LET x == cs[i] c == x.c IN
       IF ~x.acc THEN Chk({"C04", "C18", "C05"}, run => FALSE)
       ELSE IF x.closed THEN QuietClosed(c, x, t)
       ELSE IF run THEN QuietOpen(c, x, t)
       ELSE Chk({"C09", "C05"}, FALSE)
  /\ Chk({"C08"}, run => \A l \in 1..Len(counts) : counts[l] = CountOf(l))
  /\ Chk({"C08"}, ended => \A l \in 1..Len(counts) : counts[l] = 0)
  /\ Chk({"C06"}, run => \A k \in DOMAIN tk : tk[k].ret => tk[k].run = 1)
  /\ Chk({"C11"}, run => TimersMet(t))
  /\ sv' = [sv EXCEPT !.sure = run, !.stopCalled = @ /\ ~run, !.dead = @ \/ ended,
                      !.deadT = IF ended /\ ~sv.dead THEN t ELSE @]
  /\ UNCH({"cn", "ms", "tk", "tm", "lp"})

=============================================================================
