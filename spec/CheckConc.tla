------------------------------ MODULE CheckConc ------------------------------
(* C01: one access check, as it runs: a worker per requested role looks its      *)
(* assertions up and reports, the caller collects; the context of the request    *)
(* may end at any moment. Whatever the interleaving, a grant names exactly the    *)
(* roles that policy allows, and is never given when a role is denied.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxR
VARIABLES eff, pc, ended, ch, got, res
vars == <<eff, pc, ended, ch, got, res>>
Effs == {"none", "allow", "deny"}
R == 1..Len(eff)
Decide(e) == IF \E i \in 1..Len(e) : e[i] = "deny" THEN {} ELSE { i \in 1..Len(e) : e[i] = "allow" }
Init == /\ eff \in UNION { [ 1..n -> Effs ] : n \in 1..MaxR }
        /\ pc = [ i \in 1..MaxR |-> "new" ] /\ ended = FALSE /\ ch = <<>> /\ got = {} /\ res = "?"
Report(i, what) == ch' = Append(ch, [ r |-> i, what |-> what ]) /\ pc' = [ pc EXCEPT ![i] = "done" ] /\ UNCHANGED <<eff, ended, got, res>>
\* a worker that sees that the context ended reports it: its role is undecided, not "not matching"
Begin(i) == pc[i] = "new" /\ (IF ended THEN Report(i, "ended") ELSE pc' = [ pc EXCEPT ![i] = "scan" ] /\ UNCHANGED <<eff, ended, ch, got, res>>)
Scan(i) == pc[i] = "scan" /\ IF ended THEN Report(i, "ended")
                             ELSE IF eff[i] = "none" THEN pc' = [ pc EXCEPT ![i] = "done" ] /\ UNCHANGED <<eff, ended, ch, got, res>>
                             ELSE Report(i, eff[i])
End == ~ended /\ ended' = TRUE /\ UNCHANGED <<eff, pc, ch, got, res>>
Collect == /\ res = "?" /\ ch # <<>> /\ ch' = Tail(ch) /\ UNCHANGED <<eff, pc, ended>>
           /\ IF Head(ch).what = "allow" THEN got' = got \cup {Head(ch).r} /\ UNCHANGED res ELSE res' = "reject" /\ UNCHANGED got
Finish == /\ res = "?" /\ ch = <<>> /\ \A i \in R : pc[i] = "done" /\ res' = (IF got = {} THEN "reject" ELSE "grant") /\ UNCHANGED <<eff, pc, ended, ch, got>>
Next == (\E i \in R : Begin(i) \/ Scan(i)) \/ End \/ Collect \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars((\E i \in R : Begin(i) \/ Scan(i)) \/ Collect \/ Finish)
GrantRight == res = "grant" => got = Decide(eff)
RejectRight == res = "reject" /\ ~ended => Decide(eff) = {}
Answers == <>(res # "?")
EmitInit == ~(pc = [ i \in 1..MaxR |-> "new" ] /\ ~ended) \/ PrintT("TR " \o ToJson([ eff |-> eff, exp |-> Decide(eff) ]))
=============================================================================
