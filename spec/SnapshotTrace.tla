---------------------------- MODULE SnapshotTrace ----------------------------
(* Validates a recorded concurrent history of updates and checks against the   *)
(* specification: each check answers for one snapshot that was in effect at     *)
(* some moment of its execution; updates take effect atomically inside their    *)
(* call, failed ones never; Install is the only unobserved step.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES i, inst, pend, open
vars == <<i, inst, pend, open>>
E == Trace[i]
Init == i = 1 /\ inst = 0 /\ pend = {} /\ open = <<>> /\ TLCSet(1, 0)
Step == i' = i + 1 /\ (IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE)
Put(f, k, v) == (k :> v) @@ f
US == E.e = "us" /\ pend' = pend \cup {E.v} /\ UNCHANGED <<inst, open>> /\ Step
\* end of a successful update: it must have been installed; of a failed one: never
UE == /\ E.e = "ue" /\ UNCHANGED <<inst, open>> /\ Step
      /\ IF E.ok THEN E.v \notin pend /\ UNCHANGED pend ELSE E.v \in pend /\ pend' = pend \ {E.v}
\* only the version whose recorded outcome is a success can be installed
OkV == { Trace[j].v : j \in { k \in 1..Len(Trace) : Trace[k].e = "ue" /\ Trace[k].ok } }
Install(v) == /\ v \in pend /\ v \in OkV /\ pend' = pend \ {v} /\ inst' = v
              /\ open' = [ c \in DOMAIN open |-> open[c] \cup {v} ] /\ UNCHANGED i
CS == E.e = "cs" /\ open' = Put(open, E.c, {inst}) /\ UNCHANGED <<inst, pend>> /\ Step
CE == /\ E.e = "ce" /\ E.v \in open[E.c] /\ UNCHANGED <<inst, pend>> /\ Step
      /\ open' = [ c \in DOMAIN open \ {E.c} |-> open[c] ]
Next == i <= Len(Trace) /\ (US \/ UE \/ CS \/ CE \/ \E v \in pend : Install(v))
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED " \o ToJson([at |-> TLCGet(1) + 1, event |-> Trace[TLCGet(1) + 1]])) /\ FALSE
=============================================================================
