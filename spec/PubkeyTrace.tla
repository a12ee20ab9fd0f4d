----------------------------- MODULE PubkeyTrace -----------------------------
(* Validates recorded reads of single key ids during rotations: while no        *)
(* update runs an id resolves to what was last installed; during one it flips   *)
(* once from its old to its new value. Every read returns a value the id had    *)
(* at some moment of the read. The moment of the flip is not observed: poss is  *)
(* the set of values the id may have now, acc what each open read may return.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES i, poss, tgt, acc, ep
E == Trace[i]
Ids == { Trace[k].id : k \in 1..Len(Trace) }
Init == i = 1 /\ poss = [ x \in Ids |-> {"none"} ] /\ tgt = [ x \in Ids |-> "none" ] /\ acc = <<>> /\ ep = [ x \in Ids |-> 0 ] /\ TLCSet(1, 0)
Step == i' = i + 1 /\ (IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE)
\* a change of an id begins / has happened
US == /\ E.e = "us" /\ ep' = [ ep EXCEPT ![E.id] = @ + 1 ] /\ tgt' = [ tgt EXCEPT ![E.id] = E.v ] /\ poss' = [ poss EXCEPT ![E.id] = @ \cup {E.v} ]
      /\ acc' = [ r \in DOMAIN acc |-> IF acc[r].id = E.id THEN [ acc[r] EXCEPT !.s = @ \cup {E.v} ] ELSE acc[r] ] /\ Step
UE == /\ E.e = "ue" /\ poss' = [ poss EXCEPT ![E.id] = {tgt[E.id]} ] /\ UNCHANGED <<tgt, acc, ep>> /\ Step
RS == /\ E.e = "rs" /\ acc' = (E.r :> [ id |-> E.id, s |-> poss[E.id], ep |-> ep[E.id] ]) @@ acc /\ UNCHANGED <<poss, tgt, ep>> /\ Step
\* what has been seen flipped stays flipped
RE == /\ E.e = "re" /\ E.v \in acc[E.r].s /\ UNCHANGED <<tgt, ep>> /\ Step
      /\ poss' = IF E.v = tgt[E.id] /\ acc[E.r].ep = ep[E.id] /\ acc[E.r].s = poss[E.id] THEN [ poss EXCEPT ![E.id] = {E.v} ] ELSE poss
      /\ acc' = [ r \in DOMAIN acc \ {E.r} |-> acc[r] ]
Next == i <= Len(Trace) /\ (US \/ UE \/ RS \/ RE)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED " \o ToJson([at |-> TLCGet(1) + 1, event |-> Trace[TLCGet(1) + 1]])) /\ FALSE
=============================================================================
