------------------------------ MODULE CacheConc ------------------------------
(* C12, C14 under concurrency: callers look into the success cache, evaluate  *)
(* and store, each step interleaved with the others'. Whatever the order, each *)
(* gets the answer (and the principal) of its own request. The request of a    *)
(* caller is private to it: a design in which callers share the place where    *)
(* they build the key (Shared) does not have this property.                    *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Callers, Reqs, Ok, Shared, N
VARIABLES pc, req, key, cache, got, n
vars == <<pc, req, key, cache, got, n>>
None == 0
Init == /\ pc = [ c \in Callers |-> "idle" ] /\ req = [ c \in Callers |-> None ] /\ key = [ c \in Callers \cup {"all"} |-> None ]
        /\ cache = [ r \in Reqs |-> None ] /\ got = [ c \in Callers |-> None ] /\ n = [ c \in Callers |-> 0 ]
K(c) == IF Shared THEN "all" ELSE c
Begin(c) == /\ pc[c] = "idle" /\ n[c] < N /\ n' = [ n EXCEPT ![c] = @ + 1 ]
            /\ \E r \in Reqs : req' = [ req EXCEPT ![c] = r ] /\ key' = [ key EXCEPT ![K(c)] = r ]
            /\ pc' = [ pc EXCEPT ![c] = "look" ] /\ UNCHANGED <<cache, got>>
\* the principal is represented by the request it was made for; 99 stands for a rejection
Look(c) == /\ pc[c] = "look"
           /\ IF cache[key[K(c)]] # None THEN got' = [ got EXCEPT ![c] = cache[key[K(c)]] ] /\ pc' = [ pc EXCEPT ![c] = "done" ]
              ELSE pc' = [ pc EXCEPT ![c] = "eval" ] /\ UNCHANGED got
           /\ UNCHANGED <<req, key, cache, n>>
Eval(c) == /\ pc[c] = "eval"
           /\ IF req[c] \in Ok THEN pc' = [ pc EXCEPT ![c] = "store" ] /\ UNCHANGED got
              ELSE pc' = [ pc EXCEPT ![c] = "done" ] /\ got' = [ got EXCEPT ![c] = 99 ]
           /\ UNCHANGED <<req, key, cache, n>>
Store(c) == /\ pc[c] = "store" /\ cache' = [ cache EXCEPT ![key[K(c)]] = req[c] ] /\ got' = [ got EXCEPT ![c] = req[c] ]
            /\ pc' = [ pc EXCEPT ![c] = "done" ] /\ UNCHANGED <<req, key, n>>
Return(c) == pc[c] = "done" /\ pc' = [ pc EXCEPT ![c] = "idle" ] /\ UNCHANGED <<req, key, cache, got, n>>
Next == \E c \in Callers : Begin(c) \/ Look(c) \/ Eval(c) \/ Store(c) \/ Return(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Own == \A c \in Callers : pc[c] = "done" => got[c] = (IF req[c] \in Ok THEN req[c] ELSE 99)
CacheTrue == \A r \in Reqs : cache[r] \in {None} \cup ({r} \cap Ok)
Answered == \A c \in Callers : pc[c] = "look" ~> pc[c] = "done"
=============================================================================
