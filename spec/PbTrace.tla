------------------------------- MODULE PbTrace -------------------------------
(***************************************************************************)
(* The contract of the protobuf plugin (C15) and the validation of         *)
(* recorded traces against it. A connection is a stream of packed messages *)
(* and of headers whose lengths contradict each other; the state is how    *)
(* many bytes the server has read, and which message is next.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
Chk(ps, cond) == ((Prop = "all" \/ Prop \in ps) => cond) = TRUE

VARIABLES tr, l, cn, stopping
vars == <<tr, l, cn, stopping>>
Ev == Traces[tr].ev[l]

NewConn(its) == [items |-> its, rd |-> 0, pos |-> 1, off |-> 0, cause |-> FALSE, ox |-> FALSE, oc |-> FALSE]

\* the next item is a header that can never be a message, and enough of it is there
Broken(k) == k.pos <= Len(k.items) /\ k.items[k.pos].bad /\ k.rd >= k.off + 6
\* a complete message waits
Due(k) == k.pos <= Len(k.items) /\ ~k.items[k.pos].bad /\ k.rd >= k.off + k.items[k.pos].b
Cause(k) == k.cause \/ stopping \/ Broken(k)

QuietConn(x) ==
  LET k == cn[x.c] IN
  /\ x.closed => Chk({"C15"}, Cause(k))
  /\ ~x.closed =>
       /\ Chk({"C15"}, ~Due(k))
       /\ Chk({"C15"}, x.unread > 0 => x.cap = 0)
       /\ Chk({"C15"}, x.cap > 0 => x.owed = 0)

Upd(c, r) == cn' = [cn EXCEPT ![c] = r] /\ UNCHANGED stopping

Step(e) ==
  CASE e.e = "cfg"  -> UNCHANGED <<cn, stopping>>
    [] e.e = "conn" -> cn' = (e.c :> NewConn(e.items)) @@ cn /\ UNCHANGED stopping
    [] e.e = "oc"   -> Upd(e.c, [cn[e.c] EXCEPT !.oc = TRUE])
    [] e.e = "rd"   -> Upd(e.c, [cn[e.c] EXCEPT !.rd = @ + (IF e.n > 0 THEN e.n ELSE 0), !.cause = @ \/ e.err # 0 \/ e.n = 0])
    [] e.e = "we"   -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "fin"  -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "cc"   -> Upd(e.c, [cn[e.c] EXCEPT !.cause = TRUE])
    [] e.e = "om"   -> LET k == cn[e.c] IN
                       /\ Chk({"C15"}, k.oc /\ ~k.ox /\ Due(k))
                       /\ IF ~Due(k) THEN UNCHANGED <<cn, stopping>>
                          ELSE LET it == k.items[k.pos] IN
                            /\ Chk({"C15"}, e.ok /\ e.tn = it.tn /\ e.th = it.th /\ e.n = it.n /\ e.h = it.h)
                            /\ Upd(e.c, [k EXCEPT !.pos = @ + 1, !.off = @ + it.b])
    [] e.e = "wr"   -> Chk({"C15"}, e.ok) /\ UNCHANGED <<cn, stopping>>
    [] e.e = "ox"   -> Chk({"C15"}, Cause(cn[e.c]) /\ ~cn[e.c].ox) /\ Upd(e.c, [cn[e.c] EXCEPT !.ox = TRUE])
    [] e.e = "kc"   -> Chk({"C15"}, Cause(cn[e.c])) /\ UNCHANGED <<cn, stopping>>
    [] e.e = "q"    -> ((\A i \in DOMAIN e.cs : QuietConn(e.cs[i])) = TRUE) /\ UNCHANGED <<cn, stopping>>
    [] e.e = "kept" -> Chk({"C15"}, e.ok) /\ UNCHANGED <<cn, stopping>>
    [] e.e = "stop" -> stopping' = TRUE /\ UNCHANGED cn
    [] e.e \in {"started", "stopped", "end"} -> UNCHANGED <<cn, stopping>>
    [] OTHER -> FALSE

Init == tr \in 1..Len(Traces) /\ l = 1 /\ cn = << >> /\ stopping = FALSE
Next == l <= Len(Traces[tr].ev) /\ Step(Ev) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars

Rec == TLCSet(tr, l)
Rejected == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
Accepted ==
  \/ Rejected = {}
  \/ /\ PrintT("REJECTED " \o ToJson({[k |-> i, id |-> Traces[i].id, at |-> TLCGet(i)] : i \in Rejected}))
     /\ FALSE
=============================================================================
