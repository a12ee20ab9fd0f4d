------------------------------ MODULE Interrupt ------------------------------
(* C05: an update whose context ends at an arbitrary point. The workers of an    *)
(* update (one per domain, and one per policy of a fetched document) look at the *)
(* context before each of their stages; the context ends at the k-th look of all *)
(* (k beyond the last look: it does not end). Whatever k is, the update either    *)
(* installs the new policies of every domain or changes nothing and fails.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxD, MaxP, MaxK, MaxU
VARIABLES nd, np, k, looks, pc, inst, v, upds
vars == <<nd, np, k, looks, pc, inst, v, upds>>
D == 1..nd
Stages == <<"queue", "start", "fetch", "store">>
Idle == [ d \in 1..MaxD |-> "idle" ]
Init == /\ nd \in 1..MaxD /\ np \in 1..MaxP /\ k = 0 /\ looks = 0 /\ pc = Idle
        /\ inst = [ d \in 1..MaxD |-> 1 ] /\ v = 1 /\ upds = <<>>        \* version 1 is installed
Running == \E d \in D : pc[d] # "idle"
Start == /\ ~Running /\ Len(upds) < MaxU
         /\ \E n \in 1..MaxK : k' = n
         /\ looks' = 0 /\ v' = v + 1 /\ pc' = [ d \in 1..MaxD |-> IF d \in D THEN "queue" ELSE "idle" ]
         /\ UNCHANGED <<nd, np, inst, upds>>
Ended == looks' >= k
Look == looks' = looks + 1
After(s) == CASE s = "queue" -> "start" [] s = "start" -> "fetch" [] s = "fetch" -> "store" [] s = "store" -> "done"
\* storing looks once per assertion; which of them sees the end does not matter to the outcome
Step(d) == /\ pc[d] \in {"queue", "start", "fetch", "store"} /\ Look
           /\ pc' = [ pc EXCEPT ![d] = IF Ended THEN "failed" ELSE After(@) ]
           /\ UNCHANGED <<nd, np, k, inst, v, upds>>
\* each of the policies after the first is one more look
More(d) == /\ pc[d] = "store" /\ looks < 4 * nd + np /\ Look /\ (IF Ended THEN pc' = [ pc EXCEPT ![d] = "failed" ] ELSE UNCHANGED pc)
           /\ UNCHANGED <<nd, np, k, inst, v, upds>>
Finished == Running /\ \A d \in D : pc[d] \in {"done", "failed"}
Install == /\ Finished /\ \A d \in D : pc[d] = "done"
           /\ inst' = [ d \in 1..MaxD |-> IF d \in D THEN v ELSE inst[d] ] /\ pc' = Idle /\ upds' = Append(upds, k) /\ UNCHANGED <<nd, np, k, looks, v>>
Fail == /\ Finished /\ \E d \in D : pc[d] = "failed" /\ pc' = Idle /\ upds' = Append(upds, k) /\ UNCHANGED <<nd, np, k, looks, v, inst>>
Next == Start \/ (\E d \in D : Step(d) \/ More(d)) \/ Install \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars((\E d \in D : Step(d)) \/ Install \/ Fail)
\* all the domains are always at the same version
Uniform == \A d, e \in D : inst[d] = inst[e]
AllOrNothing == [][ inst' = inst \/ \A d \in D : inst'[d] = v ]_vars
Ends == Running ~> ~Running
EmitEnd == ~(~Running /\ Len(upds) = MaxU) \/ PrintT("TR " \o ToJson([ nd |-> nd, np |-> np, ks |-> upds ]))
=============================================================================
