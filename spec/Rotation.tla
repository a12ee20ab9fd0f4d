------------------------------ MODULE Rotation ------------------------------
(* C08, C09: one token processor while the keys change. Two sources of keys     *)
(* (environments or key set URLs) use the same key id "k"; in every step the     *)
(* server publishes what it has under that id and the keys are updated, or the   *)
(* update of a source fails, or time passes. After every step every token is     *)
(* presented again to the same processor: whether it is accepted depends on the  *)
(* keys installed now and on the time now, never on what was answered before.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Trusted,  \* the sources whose keys may verify a token (role tokens: only the first)
          Exps,     \* when tokens expire
          MaxSteps, MaxT, Rnd
VARIABLES now, srv, inst, hist
vars == <<now, srv, inst, hist>>
Srcs == {"a", "b"}
Vals == {"none", "A", "B"}      \* what is published under the id k (none: only other ids)
Tokens == [ src : Srcs, key : {"A", "B"}, exp : Exps ]
Init == now = 0 /\ srv = [ s \in Srcs |-> "none" ] /\ inst = [ s \in Srcs |-> "none" ] /\ hist = <<>>
Accept(i, t, tok) == tok.src \in Trusted /\ i[tok.src] = tok.key /\ t < tok.exp
Rec(a) == hist' = Append(hist, [ a |-> a, srv |-> srv', inst |-> inst', now |-> now', acc |-> { tok \in Tokens : Accept(inst', now', tok) } ])
Pick(S) == IF Rnd THEN {TLCEval(RandomElement(S))} ELSE S
\* a source whose update fails has something else to offer than what is installed
Other(v) == IF v = "A" THEN "B" ELSE "A"
Update == \E o \in Pick([ Srcs -> Vals \cup {"fail"} ]) :
            /\ srv' = [ s \in Srcs |-> IF o[s] = "fail" THEN Other(inst[s]) ELSE o[s] ]
            /\ inst' = [ s \in Srcs |-> IF o[s] = "fail" THEN inst[s] ELSE o[s] ]
            /\ UNCHANGED now
            /\ Rec([ k |-> "update", out |-> o ])
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<srv, inst>> /\ Rec([ k |-> "tick" ])
Next == Len(hist) < MaxSteps /\ (Update \/ Tick)
\* ---- laws
\* a token that expired is never accepted again; an accepted one is signed by what is installed under its id
Dead == \A i, j \in DOMAIN hist : i < j => \A t \in Tokens : hist[i].now >= t.exp => t \notin hist[j].acc
ByInstalled == \A i \in DOMAIN hist : \A t \in hist[i].acc : hist[i].inst[t.src] = t.key /\ t.src \in Trusted
AtMostOne == \A i \in DOMAIN hist : \A t, u \in hist[i].acc : t.src = u.src => t.key = u.key
EmitEnd == Len(hist') < MaxSteps \/ PrintT("TR " \o ToJson([ exps |-> Exps, steps |-> hist' ]))
=============================================================================
