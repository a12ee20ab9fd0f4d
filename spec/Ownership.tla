----------------------------- MODULE Ownership -----------------------------
(* C31: what a caller is given is its own. Lists and reports live in a heap;    *)
(* the authorizer's store (cached principals, the policies in effect) and the    *)
(* callers refer to locations of it. Handing something out copies it to a fresh  *)
(* location, so that whatever callers write to what they were given, the store   *)
(* and what other callers were given stay as they are.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Rnd, MaxOps
VARIABLES heap, cached, pol, given, hist
vars == <<heap, cached, pol, given, hist>>
R1(S) == RandomElement(S)
Creds == {"r1", "r2", "a1"}
Roles(c) == CASE c = "r1" -> <<"b", "a">> [] c = "r2" -> <<"a", "d">> [] c = "a1" -> <<"b", "a">>
Ress == {"res", "sec"}
Policies == { <<"a", "res", "allow">>, <<"b", "res", "allow">>, <<"d", "sec", "deny">>, <<"a", "sec", "allow">> }
InRoles(c) == { Roles(c)[i] : i \in 1..Len(Roles(c)) }
Decide(P, c, r) == LET m == { p \in P : p[1] \in InRoles(c) /\ p[2] = r } IN
                   IF m = {} \/ \E p \in m : p[3] = "deny" THEN {} ELSE { p[1] : p \in m }
Lists == {"roles", "auth"}
Spoil == {"reverse", "overwrite", "append", "clear"}
SpoilReport == {"effect", "domain", "resource", "action", "drop", "cut", "swap", "all"}
\* locations are numbers; 0 is the policies
Init == /\ heap = [ l \in {0} |-> Policies ] /\ cached = [ c \in {} |-> 0 ] /\ pol = 0 /\ given = <<>> /\ hist = <<>>
New(h) == Cardinality(DOMAIN h)
Put(h, v) == [ l \in DOMAIN h \cup {New(h)} |-> IF l = New(h) THEN v ELSE h[l] ]
Key(c, r) == <<c, r>>
\* a call: the principal comes from the cache, or enters it; the caller gets a copy
Vias == {"token", "http"}
Call(c, r, via) ==
  LET auth == Decide(heap[pol], c, r)
      v == [ roles |-> Roles(c), auth |-> auth ]
      hit == Key(c, r) \in DOMAIN cached
      h1 == IF hit \/ auth = {} THEN heap ELSE Put(heap, v)
      k == IF hit THEN cached[Key(c, r)] ELSE New(heap)
  IN /\ heap' = (IF auth = {} /\ ~hit THEN heap ELSE Put(h1, h1[k]))
     /\ cached' = (IF hit \/ auth = {} THEN cached ELSE [ x \in DOMAIN cached \cup {Key(c, r)} |-> IF x = Key(c, r) THEN k ELSE cached[x] ])
     /\ given' = (IF auth = {} /\ ~hit THEN given ELSE Append(given, [ k |-> "principal", at |-> New(h1) ]))
     /\ hist' = Append(hist, [ op |-> "call", cred |-> c, res |-> r, i |-> 0, how |-> via, ok |-> hit \/ auth # {}, roles |-> Roles(c), auth |-> IF hit THEN heap[cached[Key(c, r)]].auth ELSE auth ])
     /\ UNCHANGED pol
Step(op, i, how) == [ op |-> op, cred |-> "", res |-> "", i |-> i, how |-> how, ok |-> TRUE, roles |-> <<>>, auth |-> {} ]
Report == /\ heap' = Put(heap, heap[pol]) /\ given' = Append(given, [ k |-> "report", at |-> New(heap) ]) /\ hist' = Append(hist, Step("report", 0, "")) /\ UNCHANGED <<cached, pol>>
\* what a caller writes to what it was given
Spoiled(v, k, how) == IF k = "report" THEN {} ELSE [ roles |-> <<"x">>, auth |-> {"x"} ]
Write(i, f, how) == /\ heap' = [ heap EXCEPT ![given[i].at] = Spoiled(@, given[i].k, how) ] /\ hist' = Append(hist, Step(IF f = "report" THEN "wreport" ELSE f, i, how)) /\ UNCHANGED <<cached, pol, given>>
\* new policies (with the same content) take effect
Refresh == /\ heap' = Put(heap, Policies) /\ pol' = New(heap) /\ hist' = Append(hist, Step("refresh", 0, "")) /\ UNCHANGED <<cached, given>>
Ops == { <<"call", c, r, via>> : c \in Creds, r \in Ress, via \in Vias } \cup { <<"report", "", "">>, <<"refresh", "", "">> }
       \cup { <<"w", f, h>> : f \in Lists, h \in Spoil } \cup { <<"w", "report", h>> : h \in SpoilReport }
Held(f) == { i \in 1..Len(given) : (given[i].k = "report") = (f = "report") }
Do(o) == CASE o[1] = "call" -> Call(o[2], o[3], o[4])
           [] o[1] = "report" -> Report
           [] o[1] = "refresh" -> Refresh
           [] o[1] = "w" -> \E i \in (IF Rnd THEN { R1({ j \in Held(o[2]) : Len(hist) >= 0 }) } ELSE Held(o[2])) : Write(i, o[2], o[3])
Can(o) == o[1] # "w" \/ Held(o[2]) # {}
Next == Len(hist) < MaxOps /\ \E o \in (IF Rnd THEN { R1({ x \in Ops : Can(x) /\ Len(hist) >= 0 }) } ELSE { x \in Ops : Can(x) }) : Do(o)
Spec == Init /\ [][Next]_vars
Store == { cached[x] : x \in DOMAIN cached } \cup {pol}
Own == /\ \A i \in 1..Len(given) : given[i].at \notin Store
       /\ \A i, j \in 1..Len(given) : i # j => given[i].at # given[j].at
Intact == /\ heap[pol] = Policies
          /\ \A x \in DOMAIN cached : heap[cached[x]] = [ roles |-> Roles(x[1]), auth |-> Decide(Policies, x[1], x[2]) ]
Emit == Len(hist) < MaxOps \/ PrintT("TR " \o ToJson(hist))
=============================================================================
