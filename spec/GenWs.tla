-------------------------------- MODULE GenWs --------------------------------
(***************************************************************************)
(* WebSocket clients as a state machine: what they send (handshake         *)
(* requests, frames), how it is cut into segments, when the client reads,  *)
(* what the application answers and sends. Every behaviour is a scenario.  *)
(* FOCUS: frame (C12), hs (C13), ctl (C14).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Focus == IOEnv.FOCUS
Tier == IOEnv.TIER

VARIABLES phase, cfg, items, sched, steps, grp, par, left

gvars == <<phase, cfg, items, sched, steps, grp, par, left>>

Pick(s) == s[RandomElement(1..Len(s))]
Rnd(n) == RandomElement(1..n)
Coin(n) == RandomElement(1..n) = 1
RECURSIVE Rep(_, _)
Rep(F(_), n) == IF n = 0 THEN << >> ELSE <<F(n)>> \o Rep(F, n - 1)
RECURSIVE Shuffle(_)
Shuffle(s) == IF s = << >> THEN s
              ELSE LET i == Rnd(Len(s)) IN <<s[i]>> \o Shuffle([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])

\* ---------------------------------------------------------------- requests
Names(h) ==
  CASE h = "host"       -> <<"Host", "host", "HOST", "hOSt">>
    [] h = "upgrade"    -> <<"Upgrade", "upgrade", "UPGRADE">>
    [] h = "connection" -> <<"Connection", "connection", "CONNECTION", "conNection">>
    [] h = "version"    -> <<"Sec-WebSocket-Version", "sec-websocket-version", "SEC-WEBSOCKET-VERSION", "Sec-Websocket-Version">>
    [] h = "key"        -> <<"Sec-WebSocket-Key", "sec-websocket-key", "SEC-WEBSOCKET-KEY", "Sec-Websocket-Key">>
    [] h = "proto"      -> <<"Sec-WebSocket-Protocol", "sec-websocket-protocol">>
    [] h = "ext"        -> <<"Sec-WebSocket-Extensions", "sec-websocket-extensions">>
    [] h = "xbad"       -> <<"X-Bad", "x-bad", "X-BAD">>
    [] OTHER            -> <<"Origin", "User-Agent", "x-custom", "Cookie">>

Good(h) ==
  CASE h = "host"       -> <<"example.com", "example.com:8080">>
    [] h = "upgrade"    -> <<"websocket", "websocket", "WebSocket">>
    [] h = "connection" -> <<"Upgrade", "Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,upgrade">>
    [] h = "version"    -> <<"13">>
    [] h = "key"        -> <<"ok">>
    [] h = "proto"      -> <<"chat", "chat, superchat", "superchat,chat", "superchat">>
    [] h = "ext"        -> <<"permessage-deflate", "permessage-deflate; client_max_window_bits", "x-foo, permessage-deflate; a=1; b", "x-foo; p=1, x-bar">>
    [] OTHER            -> <<"v", "a: b", "x=1; y=2">>

Wrong(h) ==
  CASE h = "host"       -> <<"bad.example">>
    [] h = "upgrade"    -> <<"h2c", "", "websocketx", "websocke">>
    [] h = "connection" -> <<"keep-alive", "", "close", "Upgraded", "Upgrad">>
    [] h = "version"    -> <<"12", "", "8", "130", "1">>
    [] h = "key"        -> <<"short", "long", "">>
    [] h = "proto"      -> <<"soap, refuse", "super;chat">>
    [] h = "ext"        -> <<"x-foo, refuse", "=;">>
    [] OTHER            -> <<"v">>

Hdr(h, vs) == [h |-> h, nm |-> Pick(Names(h)), sp |-> Pick(<<" ", " ", "", "  ", "\t">>), v |-> Pick(vs)]
Required == <<"host", "upgrade", "connection", "version", "key">>

GoodLine == <<"GET /chat HTTP/1.1", "GET /chat HTTP/1.1", "GET / HTTP/1.1", "GET /chat?room=1 HTTP/1.1", "GET / HTTP/1.2", "GET / HTTP/1.11">>
BadLine == <<"GET / HTTP/1.0", "GET /chat HTTP/2.0", "GET /chat HTTP/0.9", "GET / HTTP/2.1", "POST /chat HTTP/1.1", "get /chat HTTP/1.1",
             "HEAD / HTTP/1.1", "GETX / HTTP/1.1", "GET /chat", "GET /chat HTTX/1.1", "GARBAGE", "GET /chat HTTP/1", "GET /chat HTTP/x.1">>

Extra(x) == LET h == Pick(<<"other", "other", "proto", "ext", "other">>) IN Hdr(h, Good(h))

\* a request with m flaws
Request(m) ==
  LET fl == Rep(LAMBDA i : Pick(<<"line", "drop", "wrong", "wrong", "wrong", "dup", "junk", "xbad", "opt">>), m)
      dropped == {Pick(Required) : i \in {j \in 1..m : fl[j] = "drop"}}
      wrong == {Pick(Required) : i \in {j \in 1..m : fl[j] = "wrong"}}
      base == FoldLeft(LAMBDA acc, h : IF h \in dropped THEN acc ELSE Append(acc, Hdr(h, IF h \in wrong THEN Wrong(h) ELSE Good(h))), << >>, Required)
      more == FoldLeft(LAMBDA acc, f :
                 CASE f = "dup"  -> LET h == Pick(Required) IN Append(acc, Hdr(h, IF Coin(2) THEN Wrong(h) ELSE Good(h)))
                   [] f = "junk" -> Append(acc, [h |-> "junk", nm |-> "", sp |-> "", v |-> Pick(<<"no colon here", "Upgrade", "=">>)])
                   [] f = "xbad" -> Append(acc, Hdr("xbad", <<"v">>))
                   [] f = "opt"  -> LET h == Pick(<<"proto", "ext">>) IN Append(acc, Hdr(h, Wrong(h)))
                   [] OTHER -> acc, Rep(LAMBDA i : Extra(i), Rnd(4) - 1), fl)
      hd == base \o more
  IN [ k |-> "rq", rl |-> IF \E i \in 1..m : fl[i] = "line" THEN Pick(BadLine) ELSE Pick(GoodLine),
       hd |-> IF Coin(3) THEN hd ELSE Shuffle(hd) ]

\* ------------------------------------------------------------------ frames
Len7 == <<0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 63, 100, 124, 125>>
Payload(x) == IF Coin(8) THEN Pick(<<126, 127, 128, 200, 255, 256, 1000>>) ELSE IF Coin(40) THEN Pick(<<65535, 65536, 70000>>) ELSE Pick(Len7)
Encodings(n) == IF n <= 125 THEN <<7, 7, 7, 7, 7, 7, 16, 64>> ELSE IF n <= 65535 THEN <<16, 16, 16, 64>> ELSE <<64>>

Frame(op, n) == [k |-> "fr", op |-> op, fin |-> IF op >= 8 \/ ~Coin(5) THEN 1 ELSE 0, n |-> n, enc |-> Pick(Encodings(n)),
                 mask |-> IF Coin(6) THEN 0 ELSE 1, code |-> -1, utf |-> 1, bad |-> 0]
CloseFrame(x) ==
  LET n == Pick(<<0, 0, 1, 2, 2, 3, 10, 40, 124, 125>>) IN
  [Frame(8, n) EXCEPT !.code = IF n < 2 THEN -1 ELSE Pick(<<1000, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1015, 0, 1, 999, 1016, 1100, 2000, 2999, 3000, 3500, 4000, 4999>>),
                      !.utf = IF Coin(4) THEN 0 ELSE 1]
AnyFrame(x) ==
  LET o == Pick(IF Focus = "ctl" THEN <<1, 2, 9, 9, 10, 0, 11>> ELSE <<1, 1, 2, 2, 2, 0, 9, 10, 3, 15>>) IN
  Frame(o, IF o >= 8 THEN Pick(Len7) ELSE Payload(x))

Frames(x) ==
  LET n == Rnd(IF Tier = "thorough" THEN 14 ELSE 8)
      body == Rep(LAMBDA i : AnyFrame(i), n)
      tail == IF Focus = "ctl" THEN (IF Coin(4) THEN << >> ELSE <<CloseFrame(x)>>)
              ELSE IF Coin(6) THEN << [Frame(Pick(<<1, 2>>), Pick(<<0, 4>>)) EXCEPT !.enc = 64, !.bad = 1], Frame(1, 3) >>
              ELSE IF Coin(6) THEN <<CloseFrame(x)>> ELSE << >>
  IN body \o tail

Stream(x) ==
  IF Focus = "hs" THEN
    LET m == Pick(<<0, 0, 1, 1, 1, 1, 2, 2, 3>>)
        again == IF m > 0 /\ Coin(3) THEN <<Request(Pick(<<0, 1>>))>> ELSE << >>
    IN <<Request(m)>> \o again \o (IF m = 0 THEN Rep(LAMBDA i : AnyFrame(i), Rnd(3) - 1) ELSE << >>)
  ELSE <<Request(0)>> \o Frames(x)

\* ------------------------------------------------------------- application
CbOp(x) ==
  LET o == Pick(IF Focus = "ctl" THEN <<"echo", "reply", "reply", "psend", "psend", "psend", "pclose">> ELSE <<"echo", "reply", "psend">>) IN
  [o |-> o, c |-> 0, n |-> IF Coin(30) THEN Pick(<<65535, 65536, 66000>>) ELSE Pick(<<1, 2, 5, 20, 125, 126, 130, 300, 0>>), l |-> Rnd(2)]

HookCfg(x) ==
  IF Focus = "hs"
  THEN [ req |-> Pick(<<"none", "none", "none", "ok", "ok", "rej", "plain">>),
         host |-> Pick(<<"none", "ok", "rej", "plain">>), header |-> Pick(<<"none", "ok", "rej", "plain">>),
         before |-> Pick(<<"none", "none", "none", "ok", "ok", "rej", "plain">>),
         proto |-> Pick(<<"none", "chat", "chat", "any", "any", "custom">>), ext |-> Pick(<<"none", "all", "deflate", "custom">>), srv |-> Rnd(2) - 1 ]
  ELSE [ req |-> Pick(<<"none", "ok">>), host |-> "none", header |-> "none", before |-> Pick(<<"none", "none", "ok">>),
         proto |-> "none", ext |-> "none", srv |-> 0 ]

MakeCfg(x) ==
  [ loops |-> Pick(<<1, 1, 2>>),
    pkt |-> Pick(<<1, 2, 3, 5, 8, 16, 64, 200, 1024, 65536>>),
    ubuf |-> Pick(<<1, 4, 16, 64, 300, 4096>>),
    maxev |-> Pick(<<0, 1>>),
    onmsg |-> Rep(LAMBDA i : Rep(LAMBDA j : CbOp(j), Rnd(3) - 1), Rnd(4) - 1) ]

Cap(x) == IF Focus = "ctl" THEN Pick(<<-1, -1, 0, 1, 50, 150, 200, 300, 600>>) ELSE Pick(<<-1, -1, -1, -1, 0, 100, 160, 300>>)

Init == phase = "cfg" /\ cfg = << >> /\ items = << >> /\ sched = FALSE /\ steps = << >> /\ grp = << >> /\ par = << >> /\ left = 0

ChooseCfg ==
  /\ phase = "cfg"
  /\ \E c \in {MakeCfg(left)}, h \in {HookCfg(left)}, n \in {Pick(<<1, 1, 2, 3>>)}, s \in {Coin(4)}, k \in {5 + Rnd(IF Tier = "thorough" THEN 25 ELSE 15)} :
     \E its \in {Rep(LAMBDA i : Stream(i), n)}, cap \in {Cap(left)} :
       /\ cfg' = [c |-> c, h |-> h]
       /\ items' = its
       /\ sched' = s
       /\ left' = k
       /\ steps' = << [i \in 1..n |-> [o |-> "conn", c |-> i, n |-> cap]] >>
  /\ phase' = "steps"
  /\ UNCHANGED <<grp, par>>

Conn(x) == Rnd(Len(items))

MakeOp(x) ==
  LET o == Pick(CASE Focus = "frame" -> <<"seg", "segi", "segi", "segi", "segi", "cap", "psend", "rd">>
                  [] Focus = "hs" -> <<"seg", "seg", "seg", "segi", "segi", "cap">>
                  [] OTHER -> <<"seg", "segi", "segi", "segi", "cap", "cap", "psend", "psend", "pclose", "wr", "fin">>)
      c == Conn(x)
  IN
  CASE o = "seg"   -> [o |-> "seg", c |-> c, n |-> Pick(<<1, 1, 2, 3, 4, 5, 7, 10, 14, 30, 80, 150, 250, 1000, -1>>)]
    [] o = "segi"  -> [o |-> "segi", c |-> c, l |-> Rnd(Len(items[c])), n |-> Pick(<<0, 0, 0, -1, -2, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 15>>)]
    [] o = "cap"   -> [o |-> "cap", c |-> c, n |-> Pick(<<1, 2, 5, 30, 129, 200, 500, -1>>)]
    [] o = "psend" -> [o |-> "psend", c |-> c, n |-> IF Coin(30) THEN Pick(<<65534, 65535, 65536>>) ELSE Pick(<<4, 5, 20, 125, 126, 500>>), l |-> Rnd(2)]
    [] o = "pclose" -> [o |-> "pclose", c |-> c, n |-> Pick(<<4, 10, 122, 123, 124, 200>>), l |-> 1]
    [] o = "wr"    -> [o |-> "wr", c |-> c, e |-> Pick(<< <<11>>, <<-1>>, <<-2, 11, -1>>, <<-7>>, <<-130>> >>)]
    [] o = "rd"    -> [o |-> "rd", c |-> c, e |-> Pick(<< <<11>>, <<-1, -1>>, <<-2>>, <<-1, -3, -1>> >>)]
    [] OTHER       -> [o |-> IF Coin(8) THEN o ELSE "seg", c |-> c, n |-> 5]

AddStep ==
  /\ phase = "steps" /\ left > 0
  /\ \E op \in {MakeOp(left)}, cut \in {~Coin(3)} :
       IF cut THEN steps' = Append(steps, Append(grp, op)) /\ grp' = << >>
       ELSE grp' = Append(grp, op) /\ steps' = steps
  /\ left' = left - 1
  /\ UNCHANGED <<phase, cfg, items, sched, par>>

EndSteps ==
  /\ phase = "steps" /\ left = 0
  /\ steps' = IF grp = << >> THEN steps ELSE Append(steps, grp)
  /\ grp' = << >>
  /\ \E p \in {IF sched THEN Rep(LAMBDA i : Rep(LAMBDA j : MakeOp(j), 1 + Rnd(3)), 1 + Rnd(2)) ELSE << >>} : par' = p
  /\ phase' = "print"
  /\ UNCHANGED <<cfg, items, sched, left>>

Finish ==
  /\ phase = "print"
  /\ \E seed \in {Rnd(100000000)}, pol \in {Pick(<<"rand", "pct", "stick">>)} :
       PrintT("SCN " \o ToJson(
         [ kind |-> "ws", seed |-> seed, mode |-> IF sched THEN "sched" ELSE "step", policy |-> pol, cfg |-> cfg.c, hooks |-> cfg.h, items |-> items,
           steps |-> steps, par |-> par,
           final |-> << [i \in 1..Len(items) |-> [o |-> "seg", c |-> i, n |-> -1]], [i \in 1..Len(items) |-> [o |-> "cap", c |-> i, n |-> -1]],
                        [i \in 1..Len(items) |-> [o |-> "fin", c |-> i, n |-> 0]] >> ]))
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, items, sched, steps, grp, par, left>>

Next == ChooseCfg \/ AddStep \/ EndSteps \/ Finish
Spec == Init /\ [][Next]_gvars
=============================================================================
