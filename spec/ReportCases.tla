---------------------------- MODULE ReportCases ----------------------------
(* C26: the reported policy cache of a set of documents. The report maps each  *)
(* role to its assertions, each once, deny replacing allow for the same        *)
(* (role, action, resource), deny assertions first.                            *)
EXTENDS PolicyCases
Key(a) == <<a.rod, a.role, a.act, a.rdom, a.res>>
Keys(doc) == { Key(a) : a \in AssSet(doc) }
RoleKeys(doc) == { <<k[1], k[2]>> : k \in Keys(doc) }
OfRole(S, rk) == { a \in S : a.rod = rk[1] /\ a.role = rk[2] }
Entries(S) == { [ act |-> k[3], rdom |-> k[4], res |-> k[5], deny |-> \E a \in S : Key(a) = k /\ IsDeny(a) ] : k \in { Key(a) : a \in S } }
Report(doc) == LET S == AssSet(doc) IN TLCEval([ rk \in { <<a.rod, a.role>> : a \in S } |-> TLCEval(Entries(OfRole(S, rk))) ])
\* the report determines the decisions of its document
ReportDoc(doc) == << SetToSeq(UNION { { [ rod |-> rk[1], role |-> rk[2], act |-> e.act, rdom |-> e.rdom, res |-> e.res, eff |-> IF e.deny THEN "deny" ELSE "allow" ] :
                     e \in Report(doc)[rk] } : rk \in DOMAIN Report(doc) }) >>
ReportDecides == \A k \in { i \in 1..Len(case.reqs) : i % 5 = 0 } : LET q == case.reqs[k] IN Dec(case.doc, q) = Dec(ReportDoc(case.doc), q)
NoEmptyRole == \A rk \in RoleKeys(case.doc) : Report(case.doc)[rk] # {}
OutR == LET R == Report(case.doc) ks == SetToSeq(DOMAIN R) IN
  Emit("TR", [ doc |-> case.doc, rep |-> [ i \in 1..Len(ks) |-> [ rod |-> ks[i][1], role |-> ks[i][2], as |-> SetToSeq(R[ks[i]]) ] ] ])
=============================================================================
