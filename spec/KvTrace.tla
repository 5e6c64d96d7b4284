------------------------------- MODULE KvTrace -------------------------------
(***************************************************************************)
(* The key-value context of connections (C17) is one atomic map.           *)
(*                                                                         *)
(* The specification is the sequential map, applied at some moment between *)
(* the call and the return of each operation. A recorded concurrent        *)
(* history is accepted if TLC finds such moments (a linearization); it     *)
(* only ever needs to place operations just before the next return.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tr, l,
  map,    \* <<connection, key>> -> value, of the keys that are set
  pend    \* thread -> its operation under way: call, whether it was applied, and the result

vars == <<tr, l, map, pend>>
Ev == Traces[tr].ev[l]

\* the sequential semantics
Apply(m, p) ==
  LET at == <<p.c, p.k>> IN
  CASE p.o = "set" -> [m |-> (at :> p.v) @@ m, v |-> 0, x |-> FALSE]
    [] p.o = "del" -> [m |-> [y \in (DOMAIN m) \ {at} |-> m[y]], v |-> 0, x |-> FALSE]
    [] OTHER       -> [m |-> m, v |-> IF at \in DOMAIN m THEN m[at] ELSE 0, x |-> at \in DOMAIN m]

Call(e) ==
  /\ e.th \notin DOMAIN pend
  /\ pend' = (e.th :> [o |-> e.o, c |-> e.c, k |-> e.k, v |-> e.v, done |-> FALSE, rv |-> 0, rx |-> FALSE]) @@ pend
  /\ map' = map

\* operation i takes effect
Lin(i) ==
  /\ ~pend[i].done
  /\ LET r == Apply(map, pend[i]) IN
     /\ map' = r.m
     /\ pend' = [pend EXCEPT ![i].done = TRUE, ![i].rv = r.v, ![i].rx = r.x]

Return(e) ==
  /\ e.th \in DOMAIN pend /\ pend[e.th].done
  /\ pend[e.th].o = "get" => (e.v = pend[e.th].rv /\ e.x = pend[e.th].rx)
  /\ pend' = [j \in (DOMAIN pend) \ {e.th} |-> pend[j]]
  /\ map' = map

Init == tr \in 1..Len(Traces) /\ l = 1 /\ map = << >> /\ pend = << >>

Consume ==
  /\ CASE Ev.e = "new" -> pend = << >> /\ map' = << >> /\ pend' = << >>
       [] Ev.e = "c"   -> Call(Ev)
       [] Ev.e = "r"   -> Return(Ev)
       [] Ev.e = "end" -> UNCHANGED <<map, pend>>
       [] OTHER -> FALSE      \* a crash, or an operation that never returns
  /\ l' = l + 1 /\ tr' = tr

Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ \/ Consume
     \/ /\ Ev.e = "r" /\ Ev.th \in DOMAIN pend /\ ~pend[Ev.th].done
        /\ \E i \in DOMAIN pend : Lin(i)
        /\ UNCHANGED <<tr, l>>

Spec == Init /\ [][Next]_vars

Rec == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE
Rejected == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \/ Rejected = {}
  \/ /\ PrintT("REJECTED " \o ToJson({[k |-> i, id |-> Traces[i].id, at |-> TLCGet(i)] : i \in Rejected}))
     /\ FALSE
=============================================================================
