------------------------------- MODULE WsTrace -------------------------------
(***************************************************************************)
(* The WebSocket contract of gev (C12: frames in, C13: the handshake, C14: *)
(* frames out), and the validation of recorded traces against it.          *)
(*                                                                         *)
(* Each connection is a byte stream of known items: handshake requests,    *)
(* then frames. The state is how much of it the server has read, which     *)
(* item is next, and which outputs are owed, in order. What a complete     *)
(* request must be answered with, and what a frame leads to, is defined    *)
(* here from the items alone, never from how their bytes were cut up.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

\* an equality, so that TLC evaluates it as a value (no branching on \/)
Chk(ps, cond) == ((Prop = "all" \/ Prop \in ps) => cond) = TRUE

VARIABLES tr, l, cn, hooks, stopping

vars == <<tr, l, cn, hooks, stopping>>

Ev == Traces[tr].ev[l]

-----------------------------------------------------------------------------
(* Handshake requests *)

RequestLine(rl) ==
  CASE rl \in {"GET /chat HTTP/1.1", "GET / HTTP/1.1", "GET /chat?room=1 HTTP/1.1", "GET / HTTP/1.2", "GET / HTTP/1.11"} -> "ok"
    [] rl \in {"GET / HTTP/1.0", "GET /chat HTTP/2.0", "GET /chat HTTP/0.9", "GET / HTTP/2.1"} -> "version"
    [] rl \in {"POST /chat HTTP/1.1", "get /chat HTTP/1.1", "HEAD / HTTP/1.1", "GETX / HTTP/1.1"} -> "method"
    [] rl \in {"GET /chat", "GET /chat HTTX/1.1", "GARBAGE", "", "GET /chat HTTP/1", "GET /chat HTTP/x.1"} -> "bad"

UpgradeOK(v) == v \in {"websocket", "WebSocket", "WEBSOCKET"}
ConnectionOK(v) == v \in {"Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,upgrade", "UPGRADE"}

Protocols(v) ==
  CASE v = "chat" -> <<"chat">>
    [] v = "chat, superchat" -> <<"chat", "superchat">>
    [] v = "superchat,chat" -> <<"superchat", "chat">>
    [] v = "superchat" -> <<"superchat">>
    [] v = "soap, refuse" -> <<"soap", "refuse">>
    [] v = "super;chat" -> << >>           \* malformed
ProtoBad(v) == v = "super;chat"

Exts(v) ==
  CASE v = "permessage-deflate" -> <<"permessage-deflate">>
    [] v = "permessage-deflate; client_max_window_bits" -> <<"permessage-deflate">>
    [] v = "x-foo, permessage-deflate; a=1; b" -> <<"x-foo", "permessage-deflate">>
    [] v = "x-foo; p=1, x-bar" -> <<"x-foo", "x-bar">>
    [] v = "x-foo, refuse" -> <<"x-foo", "refuse">>
    [] v = "=;" -> << >>                    \* malformed
ExtBad(v) == v = "=;"

Of(it, h) == {i \in DOMAIN it.hd : it.hd[i].h = h}

\* values of header class h in order
Vals(it, h) == LET idx == SetToSortSeq(Of(it, h), <) IN [i \in DOMAIN idx |-> it.hd[idx[i]].v]

Hook(what, code) == IF what = "rej" THEN {code} ELSE IF what = "plain" THEN {500} ELSE {}

ProtoTaken(x) == x = "chat" \/ (hooks.proto = "any" /\ x = "superchat")

\* no subprotocol has been chosen before header i
ProtoSeen(it, i) ==
  \A j \in Of(it, "proto") : j < i => hooks.proto # "custom" /\ \A x \in ToSet(Protocols(it.hd[j].v)) : ~ProtoTaken(x)

\* the statuses that may answer request it (none: it must be upgraded)
Violations(it) ==
  LET rl == RequestLine(it.rl)
      Missing(h) == IF Of(it, h) = {} THEN {400} ELSE {}
      Each(h, F(_)) == UNION {F(it.hd[i].v) : i \in Of(it, h)}
      V == (CASE rl = "bad" -> {400} [] rl = "version" -> {505} [] rl = "method" -> {405} [] OTHER -> Hook(hooks.req, 403))
           \cup Missing("host") \cup Missing("upgrade") \cup Missing("connection") \cup Missing("version") \cup Missing("key")
           \cup Each("host", LAMBDA v : IF v = "bad.example" THEN Hook(hooks.host, 451) ELSE {})
           \cup Each("upgrade", LAMBDA v : IF UpgradeOK(v) THEN {} ELSE {400})
           \cup Each("connection", LAMBDA v : IF ConnectionOK(v) THEN {} ELSE {400})
           \cup Each("version", LAMBDA v : IF v = "13" THEN {} ELSE {426})
           \cup Each("key", LAMBDA v : IF v = "ok" THEN {} ELSE {400})
           \cup Each("junk", LAMBDA v : {400})
           \cup Each("xbad", LAMBDA v : Hook(hooks.header, 401))
           \cup (IF hooks.proto = "none" THEN {}
                 ELSE UNION {LET v == it.hd[i].v IN
                             IF ProtoSeen(it, i) /\ ((hooks.proto # "custom" /\ ProtoBad(v)) \/ (hooks.proto = "custom" /\ v = "soap, refuse"))
                             THEN {400} ELSE {} : i \in Of(it, "proto")})
           \cup (IF hooks.ext = "none" THEN {}
                 ELSE Each("ext", LAMBDA v : IF (hooks.ext \in {"all", "deflate"} /\ ExtBad(v)) \/ (hooks.ext = "custom" /\ v = "x-foo, refuse") THEN {400} ELSE {}))
  IN IF V = {} THEN Hook(hooks.before, 429) ELSE V

NegotiatedProto(it) ==
  CASE hooks.proto = "none" -> ""
    [] hooks.proto = "custom" -> IF Of(it, "proto") = {} THEN "" ELSE "custom"
    [] OTHER -> LET vs == Vals(it, "proto")
                    all == SelectSeq(FlattenSeq([i \in DOMAIN vs |-> Protocols(vs[i])]), ProtoTaken)
                IN IF all = << >> THEN "" ELSE Head(all)

Uniq(s) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), << >>, s)

\* the offers of one header, up to the first that an earlier one made already
\* (httphead passes over the rest of that header)
RECURSIVE Fresh(_, _)
Fresh(s, seen) == IF s = << >> \/ Head(s) \in seen THEN << >> ELSE <<Head(s)>> \o Fresh(Tail(s), seen \cup {Head(s)})

ExtsOK(it, got) ==
  LET vs == Vals(it, "ext")
      Take(x) == hooks.ext = "all" \/ x = "permessage-deflate"
      all == SelectSeq(Uniq(FlattenSeq([i \in DOMAIN vs |-> Exts(vs[i])])), Take)
      must == SelectSeq(FoldLeft(LAMBDA acc, v : acc \o Fresh(Exts(v), ToSet(acc)), << >>, vs), Take)
  IN
  CASE hooks.ext = "none" -> got = << >>
    [] hooks.ext = "custom" -> got = [i \in DOMAIN vs |-> "custom"]
    [] OTHER -> ToSet(must) \subseteq ToSet(got) /\ got = SelectSeq(all, LAMBDA x : x \in ToSet(got))

KeysOf(it) == IF it.k = "rq" THEN Cardinality(Of(it, "key")) ELSE 0

-----------------------------------------------------------------------------
(* Frames *)

Ext(it) == CASE it.enc = 7 -> 0 [] it.enc = 16 -> 2 [] OTHER -> 8
FrameLen(it) == 2 + Ext(it) + (IF it.mask THEN 4 ELSE 0) + it.n
IsControl(it) == it.op >= 8

Defined == {1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011}
\* is the close frame's status one that is echoed?
CodeOK(it) == it.n >= 2 /\ it.utf /\ (it.code \in Defined \/ it.code >= 3000)

NewConn(its) ==
  [ items |-> its, rd |-> 0, pos |-> 1, off |-> 0, st |-> "new", up |-> FALSE, keys |-> 0,
    exp |-> << >>, sends |-> << >>, cause |-> FALSE, ks |-> FALSE, ox |-> FALSE, kc |-> FALSE, oc |-> FALSE,
    inh |-> FALSE, hpre |-> {},
    cend |-> LET c == {i \in DOMAIN its : its[i].k = "fr" /\ its[i].op = 8 /\ ~its[i].bad}
             IN IF c = {} THEN 0
                ELSE LET m == CHOOSE i \in c : \A j \in c : i <= j
                     IN FoldLeft(LAMBDA a, x : a + x.b, 0, SubSeq(its, 1, m)) ]

\* what comes next once the bytes read so far are taken into account: every
\* complete item up to the next data frame has its effect
RECURSIVE Adv(_)
Adv(k) ==
  IF k.pos > Len(k.items) \/ k.st \in {"dead", "lost", "closing"} THEN k
  ELSE LET it == k.items[k.pos]
           nx == [k EXCEPT !.pos = @ + 1, !.off = @ + it.b, !.keys = @ + KeysOf(it)]
           Owe(r, x) == [r EXCEPT !.exp = Append(@, x)]
       IN
       IF it.k = "fr" /\ it.bad /\ k.st = "open" /\ k.rd >= k.off + 10 THEN [k EXCEPT !.st = "dead", !.cause = TRUE]
       ELSE IF k.st = "open" /\ it.k # "fr" /\ k.rd > k.off THEN [k EXCEPT !.st = "lost"]
       ELSE IF k.rd < k.off + it.b THEN k
       ELSE IF k.st = "new" THEN
              IF it.k # "rq" THEN [k EXCEPT !.st = "lost"]
              ELSE LET V == Violations(it) IN
                   IF V = {} THEN Adv(Owe([nx EXCEPT !.st = "open"], [k |-> "101", it |-> it, ko |-> k.keys]))
                   ELSE Adv(Owe([nx EXCEPT !.cause = TRUE], [k |-> "rej", codes |-> V]))
       ELSE IF ~IsControl(it) THEN k
       ELSE CASE it.op = 8  -> Owe([nx EXCEPT !.st = "closing"], [k |-> "close", it |-> it])
              [] it.op = 9  -> Adv(Owe(nx, [k |-> "pong", n |-> it.n, h |-> it.h]))
              [] it.op = 10 -> Adv(Owe(nx, [k |-> "maybe", n |-> it.n, h |-> it.h]))
              [] OTHER      -> Adv(nx)

Owed(exp) == SelectSeq(exp, LAMBDA x : x.k # "maybe")

\* output m is the one owed as x
Answers(m, x) ==
  CASE x.k = "101" ->
         /\ m.k = "http" /\ m.st = 101 /\ m.up /\ m.cn /\ ~m.dup
         /\ m.acc \in (x.ko + 1)..(x.ko + KeysOf(x.it))
         /\ m.proto = NegotiatedProto(x.it)
         /\ ExtsOK(x.it, m.ext)
         /\ m.srv = hooks.srv
         /\ m.ups = (IF hooks.before = "none" THEN 0 ELSE 1)
    [] x.k = "rej" ->
         /\ m.k = "http" /\ m.st \in x.codes /\ ~m.dup
         /\ m.srv = hooks.srv
         /\ (m.st = 426 => m.v13)
         /\ (m.st \in {403, 451, 401, 429} => m.rej = m.st)
         /\ m.acc = 0
    [] x.k = "close" -> m.k = "fr" /\ m.op = 8 /\
         IF x.it.n = 0 THEN m.n = 0
         ELSE IF CodeOK(x.it) THEN m.n = x.it.n /\ m.h = x.it.h
         ELSE m.code = 1002
    [] x.k = "pong" -> m.k = "fr" /\ m.op = 10 /\ m.n = x.n /\ m.h = x.h
    [] x.k = "maybe" -> m.k = "fr" /\ m.op = 9 /\ m.n = x.n /\ m.h = x.h
    [] x.k = "msg" -> m.k = "fr" /\ m.op = x.op /\ m.n = x.n /\ m.h = x.h

WellFormed(m) == m.k = "fr" => m.fin /\ m.rsv = 0 /\ ~m.masked /\ m.min /\ (m.op >= 8 => m.n <= 125)

\* exp without its first owed entry (and what may be skipped before it), for an output m that answers one of them
After(exp, m) ==
  {SubSeq(exp, i + 1, Len(exp)) : i \in {j \in DOMAIN exp : Answers(m, exp[j]) /\ \A n \in 1..(j - 1) : exp[n].k = "maybe"}}

-----------------------------------------------------------------------------

Init == tr \in 1..Len(Traces) /\ l = 1 /\ cn = << >> /\ hooks = << >> /\ stopping = FALSE

Upd(c, r) == cn' = [cn EXCEPT ![c] = r] /\ UNCHANGED <<hooks, stopping>>
SendIds(k) == DOMAIN k.sends

Cause(k) == k.cause \/ stopping \/ k.st \in {"dead", "lost", "closing"}
\* a client that sends something else than what the protocol expects (a request
\* where frames are due): nothing is specified any more
Lost(c) == Adv(cn[c]).st = "lost"

QuietConn(x) ==
  LET k == Adv(cn[x.c]) IN
  IF k.st = "lost" THEN TRUE ELSE
  /\ (x.closed \/ k.kc) => Chk({"C12", "C13", "C14"}, Cause(k))
  /\ ~x.closed =>
       /\ Chk({"C12"}, k.st = "dead" => k.rd < k.off + 10 + (IF k.items[k.pos].mask THEN 4 ELSE 0))
       /\ Chk({"C12"}, k.st = "open" => k.pos > Len(k.items) \/ k.rd < k.off + k.items[k.pos].b)
       /\ Chk({"C12", "C13", "C14"}, x.unread > 0 => x.cap = 0)
       /\ Chk({"C13"}, x.cap > 0 => \A i \in DOMAIN k.exp : k.exp[i].k \notin {"101", "rej"})
       /\ Chk({"C14"}, x.cap > 0 => Owed(k.exp) = << >> /\ x.part = 0)
       /\ Chk({"C14"}, x.cap > 0 /\ k.st # "closing" => \A i \in SendIds(k) : k.sends[i].r = "ok" => k.sends[i].out)
       /\ Chk({"C14"}, x.cap > 0 /\ k.st = "closing" => k.ks)

Step(e) ==
  IF e.e \in {"om", "omr", "out", "ks", "ox", "kc", "hook"} /\ Lost(e.c) THEN UNCHANGED <<cn, hooks, stopping>> ELSE
  CASE e.e = "cfg"  -> hooks' = e.hooks /\ UNCHANGED <<cn, stopping>>
    [] e.e = "conn" -> /\ \A i \in DOMAIN e.items : e.items[i].k = "fr" => e.items[i].b = FrameLen(e.items[i])
                       /\ cn' = (e.c :> NewConn(e.items)) @@ cn /\ UNCHANGED <<hooks, stopping>>
    [] e.e = "oc"   -> Upd(e.c, [cn[e.c] EXCEPT !.oc = TRUE])
    [] e.e = "rd"   -> Upd(e.c, LET k == cn[e.c] n == IF e.n > 0 THEN e.n ELSE 0 IN
                         [k EXCEPT !.rd = @ + n, !.cause = @ \/ e.err # 0 \/ (e.n = 0),
                                   !.hpre = IF k.rd < k.cend /\ k.cend <= k.rd + n
                                            THEN {i \in SendIds(k) : k.sends[i].r = "ok"} ELSE @])
    [] e.e = "we"   -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "hook" -> /\ Chk({"C13"}, ~cn[e.c].up)
                       /\ UNCHANGED <<cn, hooks, stopping>>
    [] e.e = "om"   -> LET k == Adv(cn[e.c]) IN
                       /\ Chk({"C12", "C13"}, k.st \in {"open", "closing"} /\ ~k.ox)
                       /\ IF k.st = "open" THEN
                            /\ Chk({"C12", "C14"}, k.pos <= Len(k.items))
                            /\ IF k.pos > Len(k.items) THEN UNCHANGED <<cn, hooks, stopping>>
                               ELSE LET it == k.items[k.pos] IN
                                 /\ Chk({"C12", "C14"}, it.k = "fr" /\ ~it.bad /\ ~IsControl(it))
                                 /\ Chk({"C12"}, k.rd >= k.off + it.b)
                                 /\ Chk({"C12"}, e.n = it.n /\ e.h = it.h)
                                 /\ Upd(e.c, [k EXCEPT !.pos = @ + 1, !.off = @ + it.b, !.inh = TRUE])
                          ELSE UNCHANGED <<cn, hooks, stopping>>
    [] e.e = "omr"  -> LET k == cn[e.c] IN
                       IF e.n > 0 /\ k.inh THEN Upd(e.c, [k EXCEPT !.exp = Append(@, [k |-> "msg", op |-> e.op, n |-> e.n, h |-> e.h]), !.inh = FALSE])
                       ELSE Upd(e.c, [k EXCEPT !.inh = FALSE])
    [] e.e = "sc"   -> LET k == cn[e.c] IN
                       Upd(e.c, [k EXCEPT !.sends = (e.id :> [op |-> e.op, n |-> e.n, h |-> e.h, r |-> "", out |-> FALSE,
                                                              pre |-> {i \in SendIds(k) : k.sends[i].r = "ok"}]) @@ @])
    [] e.e = "sr"   -> Upd(e.c, [cn[e.c] EXCEPT !.sends[e.id].r = e.r])
    [] e.e = "cc"   -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "fin"  -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "out"  -> LET k == Adv(cn[e.c]) m == e.m
                           rest == After(k.exp, m)
                           ss == {i \in SendIds(k) : LET x == k.sends[i] IN
                                    m.k = "fr" /\ ~x.out /\ x.r # "closed" /\ m.op = x.op /\ m.n = x.n /\ m.h = x.h
                                    /\ \A p \in x.pre : k.sends[p].out}
                       IN
                       /\ Chk({"C14"}, WellFormed(m))
                       /\ Chk({"C14"}, m.k = "fr" => k.up)
                       /\ Chk({"C13"}, m.k = "http" => ~k.up)
                       /\ Chk({"C14"}, m.k # "junk")
                       \* after the close frame was answered nothing more is owed, and what an application still sends is its own
                       /\ \/ \E r \in rest : Upd(e.c, [k EXCEPT !.exp = r, !.up = @ \/ (m.k = "http" /\ m.st = 101)])
                          \/ \E i \in ss : Upd(e.c, [k EXCEPT !.sends[i].out = TRUE])
                          \/ /\ rest = {} /\ ss = {}
                             /\ Chk({IF m.k = "http" THEN "C13" ELSE "C14"}, m.k = "fr" /\ k.st = "closing" /\ k.ks)
                             /\ Upd(e.c, k)
    [] e.e = "ks"   -> LET k == Adv(cn[e.c]) IN
                       /\ Chk({"C14"}, k.st = "closing" /\ e.how = 1)
                       /\ Chk({"C14"}, Owed(k.exp) = << >> /\ \A i \in k.hpre : k.sends[i].out)
                       /\ Upd(e.c, [k EXCEPT !.ks = TRUE])
    [] e.e = "ox"   -> LET k == Adv(cn[e.c]) IN
                       /\ Chk({"C12", "C13", "C14"}, Cause(k) /\ ~k.ox)
                       /\ Upd(e.c, [k EXCEPT !.ox = TRUE])
    [] e.e = "kc"   -> LET k == Adv(cn[e.c]) IN
                       /\ Chk({"C12", "C13", "C14"}, Cause(k))
                       \* a server that closes by itself does so behind everything sent before
                       /\ Chk({"C14"}, k.st = "closing" /\ ~k.cause /\ ~stopping /\ ~k.ks => Owed(k.exp) = << >> /\ \A i \in k.hpre : k.sends[i].out)
                       /\ Upd(e.c, [k EXCEPT !.kc = TRUE])
    [] e.e = "q"    -> ((\A i \in DOMAIN e.cs : QuietConn(e.cs[i])) = TRUE) /\ UNCHANGED <<cn, hooks, stopping>>
    [] e.e = "stop" -> stopping' = TRUE /\ UNCHANGED <<cn, hooks>>
    [] e.e = "started" -> Chk({}, stopping) /\ UNCHANGED <<cn, hooks, stopping>>
    [] e.e = "kept" -> Chk({"C12"}, e.ok) /\ UNCHANGED <<cn, hooks, stopping>>
    [] e.e \in {"stopped", "end"} -> UNCHANGED <<cn, hooks, stopping>>
    [] OTHER -> FALSE

Next == l <= Len(Traces[tr].ev) /\ Step(Ev) /\ l' = l + 1 /\ tr' = tr

Spec == Init /\ [][Next]_vars

Best(i, n) == IF n > TLCGet(i) THEN TLCSet(i, n) ELSE TRUE
Rec == IF l = 1 THEN TLCSet(tr, 1) ELSE Best(tr, l)

Rejected == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
Accepted ==
  \/ Rejected = {}
  \/ /\ PrintT("REJECTED " \o ToJson({[k |-> i, id |-> Traces[i].id, at |-> TLCGet(i)] : i \in Rejected}))
     /\ FALSE
=============================================================================
