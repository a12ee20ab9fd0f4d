-------------------------------- MODULE Glob --------------------------------
(* Wildcard matching of assertions (property C02).                           *)
EXTENDS Strings

\* The property: p matches s iff s is an expansion of p, ignoring case.
RECURSIVE GlobMatch(_, _)
GlobMatch(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF Head(p) = "*"
       THEN \E k \in 0..Len(s) : GlobMatch(Tail(p), SubSeq(s, k + 1, Len(s)))
       ELSE /\ s # <<>>
            /\ \/ Head(p) = "?"
               \/ LowC(Head(p)) = LowC(Head(s))
            /\ GlobMatch(Tail(p), Tail(s))

\* The design: a translation to an automaton run over the value (what a compiled
\* regular expression does). States are positions of p; StarClose skips stars.
RECURSIVE StarClose(_, _)
StarClose(p, Q) ==
  LET Q2 == Q \cup { q + 1 : q \in { r \in Q : r <= Len(p) /\ p[r] = "*" } }
  IN IF Q2 = Q THEN Q ELSE StarClose(p, Q2)
StepNFA(p, Q, c) ==
  { q \in Q : q <= Len(p) /\ p[q] = "*" }
  \cup { q + 1 : q \in { r \in Q : r <= Len(p) /\ p[r] # "*"
                                   /\ (p[r] = "?" \/ LowC(p[r]) = LowC(c)) } }
RECURSIVE RunNFA(_, _, _)
RunNFA(p, Q, s) == IF s = <<>> THEN Q
                   ELSE RunNFA(p, StarClose(p, StepNFA(p, Q, Head(s))), Tail(s))
NFAMatch(p, s) == (Len(p) + 1) \in RunNFA(p, StarClose(p, {1}), s)
=============================================================================
