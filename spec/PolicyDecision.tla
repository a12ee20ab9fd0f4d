--------------------------- MODULE PolicyDecision ---------------------------
(* Access decisions over a policy document (property C01).                   *)
(* An assertion is [rod, role, act, rdom, res, eff]: the role `role` of        *)
(* domain `rod` may (not) do `act` on resource `res` of domain `rdom`.        *)
(* All are character sequences but eff, an effect string.                     *)
(* A document is a sequence of *)
(* policies, a policy a sequence of assertions.                              *)
EXTENDS Glob

IsDeny(a) == a.eff \in {"deny", "DENY", "Deny"}   \* compared ignoring case
AssSet(doc) == UNION { { doc[i][j] : j \in 1..Len(doc[i]) } : i \in 1..Len(doc) }

MatchAss(a, dom, role, act, res) ==
  /\ a.rod = dom /\ a.role = role      \* domain and role names: exact, never wildcards
  /\ Low(a.rdom) = Low(dom)
  /\ GlobMatch(a.act, act)
  /\ GlobMatch(a.res, res)

\* THE property: deny overrides, default deny, exactly the allowing roles.
Denied(doc, dom, roles, act, res) ==
  \E i \in 1..Len(roles) : \E a \in AssSet(doc) : IsDeny(a) /\ MatchAss(a, dom, roles[i], act, res)
AllowIdx(doc, dom, roles, act, res) ==
  { i \in 1..Len(roles) : \E a \in AssSet(doc) : ~IsDeny(a) /\ MatchAss(a, dom, roles[i], act, res) }
\* result: the set of authorized roles; {} means rejected
Decide(doc, dom, roles, act, res) ==
  IF Denied(doc, dom, roles, act, res) THEN {}
  ELSE { roles[i] : i \in AllowIdx(doc, dom, roles, act, res) }
=============================================================================
