------------------------------ MODULE MergeCases ------------------------------
(* Documents whose policies contradict each other; the outcome may not depend  *)
(* on how the per-policy goroutines interleave (see PolicyMerge).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N
VARIABLE case
Ent == [ k : {1, 2}, eff : {"allow", "deny"} ]
Pols == UNION { [1..n -> Ent] : n \in 1..2 }
Ents(ps) == UNION { { ps[i][j] : j \in 1..Len(ps[i]) } : i \in 1..Len(ps) }
Exp(ps) == [ k \in 1..2 |-> IF \E e \in Ents(ps) : e.k = k /\ e.eff = "deny" THEN "deny"
                            ELSE IF \E e \in Ents(ps) : e.k = k THEN "allow" ELSE "none" ]
RP(i) == RandomElement(Pols)
RDoc(i) == [ p \in 1..(2 + (i % 4)) |-> RP(p + i) ]
Interesting(ps) == \E i, j \in 1..Len(ps) : i # j /\ \E a \in 1..Len(ps[i]), b \in 1..Len(ps[j]) : ps[i][a].k = ps[j][b].k /\ ps[i][a].eff # ps[j][b].eff
Init == \/ \E i \in 1..N : \E ps \in {RDoc(i)} : Interesting(ps) /\ case = [ pols |-> ps, exp |-> Exp(ps) ]
        \/ LET a == [k |-> 1, eff |-> "allow"] d == [k |-> 1, eff |-> "deny"] IN
           \E ps \in { <<<<a>>, <<d>>>>, <<<<d>>, <<a>>>>, <<<<a>>, <<a>>, <<d>>>>, <<<<d>>, <<a>>, <<a>>, <<a>>>> } : case = [ pols |-> ps, exp |-> Exp(ps) ]
Next == FALSE /\ UNCHANGED case
Out == PrintT("TR " \o ToJson(case))
=============================================================================
