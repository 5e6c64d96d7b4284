----------------------------- MODULE GevEvents -----------------------------
(* The actions of Gev by the names observers give them: e is one event, as  *)
(* the driver records it (GevTrace) or as the model of the implementation   *)
(* performs it (Alg).                                                       *)
EXTENDS Gev

Step(e) ==
  CASE e.e = "cfg"  -> sv' = [sv EXCEPT !.idle = e.idle, !.strat = e.strategy, !.proto = e.proto, !.nloops = e.loops]
                       /\ UNCHANGED <<cn, ms, tk, tm, lp>>
    \* bare event loops, without a server: nothing is assigned to them
    [] e.e = "loops" -> lp' = [i \in 1..e.n |-> [g |-> 0, busy |-> 0]] /\ UNCHANGED <<cn, ms, tk, tm, sv>>
    [] e.e = "new"  -> Make(e.ok, e.hit, e.dial, e.fd, e.ep, e.g)
    [] e.e = "left" -> Left(e.fd, e.ep, e.sock, e.g)
    [] e.e \in {"again", "againup"} -> Again(e.ok)
    [] e.e = "stt"  -> IF e.k = "call" THEN StartCall(e.t) ELSE StartRet(e.t)
    [] e.e = "stc"  -> StopCall(e.id, e.t)
    [] e.e = "str"  -> StopRet(e.id, e.t)
    [] e.e = "dial" -> Dial(e.ok)
    [] e.e = "conn" -> Connect(e.c, e.cap, e.t)
    [] e.e = "in"   -> Arrive(e.c, e.n, e.t)
    [] e.e = "fin"  -> PeerEnds(e.c, e.k)
    [] e.e = "cap"  -> Stutter
    [] e.e = "ac"   -> Accept(e.c, e.t)
    [] e.e = "nb"   -> SetupFails(e.c)
    [] e.e = "as"   -> Assign(e.pick, e.before, e.after, e.g)
    [] e.e = "lg"   -> LoopRuns(e.l, e.g)
    [] e.e = "af"   -> RegisterFails(e.c)
    [] e.e = "oc"   -> OnConnect(e.c, e.g, e.fresh, e.up)
    [] e.e = "ocr"  -> OnConnectRet(e.c)
    [] e.e = "rd"   -> Read(e.c, e.n, e.err, e.t)
    [] e.e = "up"   -> Present(e.c, e.f, e.n, e.ok)
    [] e.e = "om"   -> OnMessage(e.c, e.g, e.f, e.n, e.ok, e.own)
    [] e.e = "omr"  -> OnMessageRet(e.c, e.id, e.n)
    [] e.e = "sc"   -> SendCall(e.c, e.id, e.n, e.fin)
    [] e.e = "sr"   -> SendRet(e.c, e.id, e.r)
    [] e.e = "pk"   -> Encode(e.c, e.id, e.g)
    [] e.e = "wr"   -> Write(e.c, e.n, e.want, e.err, e.again, e.segs, e.t)
    [] e.e = "fn"   -> Finish(e.c, e.id, e.g, e.ok, e.wbl)
    [] e.e = "hc"   -> ShutCall(e.c, e.id)
    [] e.e = "hr"   -> ShutRet(e.c, e.id, e.r)
    [] e.e = "ks"   -> HalfClose(e.c, e.how)
    [] e.e = "cc"   -> CloseCall(e.c, e.id)
    [] e.e = "cr"   -> CloseRet(e.c, e.id, e.r)
    [] e.e = "lk"   -> IF e.k = "call" THEN LookCall(e.c, e.id) ELSE LookRet(e.c, e.id, e.up)
    [] e.e = "ox"   -> OnClose(e.c, e.g, e.up, e.own, e.t)
    [] e.e = "oxr"  -> OnCloseRet(e.c)
    [] e.e = "kc"   -> Release(e.c, e.t)
    [] e.e = "tc"   -> TaskCall(e.id, e.l)
    [] e.e = "tq"   -> TaskQueued(e.id)
    [] e.e = "tr"   -> TaskRun(e.id, e.l, e.g)
    [] e.e = "ta"   -> IF e.k = "call" THEN TimerSet(e.id, e.d, e.every, e.t) ELSE TimerSetRet(e.id, e.t)
    [] e.e = "tf"   -> TimerFire(e.id, e.t)
    [] e.e = "ts"   -> TimerStop(e.id, e.r, e.t)
    [] e.e = "lag"  -> HeldUp(e.d, e.t)
    [] e.e = "spin" -> Spins
    [] e.e = "q"    -> Quiet(e.cs, e.counts, e.t)
    [] e.e = "end"  -> Stutter
    \* an operation on a descriptor that is not open, a callback for an unknown
    \* connection, a crash, a hang or a runaway execution is never allowed
    [] OTHER -> FALSE
=============================================================================
