------------------------------ MODULE GevTrace ------------------------------
(* Replays traces recorded from the real server (one JSON object per line of *)
(* the file $TRACES: {"id":..,"ev":[..]}) against the actions of Gev.        *)
EXTENDS GevEvents, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
TheProp == IOEnv.PROP

VARIABLES tr, l

Ev == Traces[tr].ev[l]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ GevInit

Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ Step(Ev)
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_<<vars, tr, l>>

Rec == TLCSet(tr, l)

Rejected == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}

Accepted ==
  \/ Rejected = {}
  \/ /\ PrintT("REJECTED " \o ToJson({[k |-> i, id |-> Traces[i].id, at |-> TLCGet(i)] : i \in Rejected}))
     /\ FALSE
=============================================================================
