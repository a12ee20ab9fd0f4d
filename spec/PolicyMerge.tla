----------------------------- MODULE PolicyMerge -----------------------------
(* Design model of how a document becomes per-role assertion lists and how a   *)
(* request is evaluated: one concurrent process per policy merges into a       *)
(* shared map, the map is listed in any order (deny first), one process per    *)
(* requested role evaluates its list, a collector reads their results.         *)
(* Checked: every interleaving yields PolicyDecision!Decide.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NPol, Len1   \* number of policies, assertions per policy
VARIABLES doc, map, pc, phase, lists, todo, rpc, chan, got, result

RolesS == {"r", "s"}
Ass == [ role : RolesS, key : {1, 2}, eff : {"allow", "deny"} ]  \* key: which (action,resource)
Match(a, k) == a.key = k
Req == [ roles |-> <<"r", "s">>, key |-> 1 ]

Spec_Allowed == { ro \in RolesS : \E p \in 1..NPol : \E j \in 1..Len1 : doc[p][j].role = ro /\ Match(doc[p][j], 1) /\ doc[p][j].eff = "allow" }
Spec_Denied == \E p \in 1..NPol : \E j \in 1..Len1 : Match(doc[p][j], 1) /\ doc[p][j].eff = "deny"
SpecResult == IF Spec_Denied THEN {} ELSE Spec_Allowed

vars == <<doc, map, pc, phase, lists, todo, rpc, chan, got, result>>
Keys == RolesS \X {1, 2}
Init ==
  /\ doc \in [ 1..NPol -> [ 1..Len1 -> Ass ] ]
  /\ map = << >> /\ pc = [ p \in 1..NPol |-> 1 ] /\ phase = "merge"
  /\ lists = [ ro \in RolesS |-> <<>> ] /\ todo = {} /\ rpc = [ ro \in RolesS |-> "idle" ]
  /\ chan = <<>> /\ got = {} /\ result = "none"
\* LoadOrStore for allow, Store for deny: both atomic
Merge(p) ==
  /\ phase = "merge" /\ pc[p] <= Len1
  /\ LET a == doc[p][pc[p]] IN LET k == <<a.role, a.key>> IN
     map' = IF k \in DOMAIN map /\ a.eff = "allow" THEN map ELSE (k :> a.eff) @@ map
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<doc, phase, lists, todo, rpc, chan, got, result>>
MergeDone ==
  /\ phase = "merge" /\ \A p \in 1..NPol : pc[p] > Len1
  /\ phase' = "list" /\ todo' = DOMAIN map
  /\ UNCHANGED <<doc, map, pc, lists, rpc, chan, got, result>>
List(k) ==
  /\ phase = "list" /\ k \in todo
  /\ todo' = todo \ {k}
  /\ LET e == [key |-> k[2], eff |-> map[k]] IN
     lists' = [lists EXCEPT ![k[1]] = IF e.eff = "deny" THEN <<e>> \o @ ELSE Append(@, e)]
  /\ UNCHANGED <<doc, map, pc, phase, rpc, chan, got, result>>
ListDone == /\ phase = "list" /\ todo = {} /\ phase' = "check"
            /\ UNCHANGED <<doc, map, pc, lists, todo, rpc, chan, got, result>>
\* evaluation of one role: first matching assertion of its list
First(l) == IF \E i \in 1..Len(l) : l[i].key = 1
            THEN l[CHOOSE i \in 1..Len(l) : l[i].key = 1 /\ \A j \in 1..(i-1) : l[j].key # 1].eff ELSE "none"
Eval(ro) == /\ phase = "check" /\ rpc[ro] = "idle"
            /\ rpc' = [rpc EXCEPT ![ro] = "done"]
            /\ chan' = IF First(lists[ro]) = "none" THEN chan ELSE Append(chan, <<ro, First(lists[ro])>>)
            /\ UNCHANGED <<doc, map, pc, phase, lists, todo, got, result>>
Collect == /\ phase = "check" /\ result = "none" /\ chan # <<>>
           /\ chan' = Tail(chan)
           /\ IF Head(chan)[2] = "deny" THEN result' = "deny" /\ got' = {}
              ELSE got' = got \cup {Head(chan)[1]} /\ UNCHANGED result
           /\ UNCHANGED <<doc, map, pc, phase, lists, todo, rpc>>
Finish == /\ phase = "check" /\ result = "none" /\ chan = <<>> /\ \A ro \in RolesS : rpc[ro] = "done"
          /\ result' = IF got = {} THEN "deny" ELSE "ok"
          /\ UNCHANGED <<doc, map, pc, phase, lists, todo, rpc, chan, got>>
Next == (\E p \in 1..NPol : Merge(p)) \/ MergeDone \/ (\E k \in todo : List(k)) \/ ListDone
        \/ (\E ro \in RolesS : Eval(ro)) \/ Collect \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == result # "none" => (IF result = "deny" THEN SpecResult = {} ELSE SpecResult = got /\ got # {})
DenyFirst == phase = "check" => \A ro \in RolesS : \A i, j \in 1..Len(lists[ro]) : (lists[ro][i].eff = "allow" /\ lists[ro][j].eff = "deny") => j < i
Terminates == <>(result # "none")
=============================================================================
