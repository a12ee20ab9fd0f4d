--------------------------- MODULE PolicySnapshot ---------------------------
(* Interleavings of policy updates and access checks (property C05).           *)
(* An update asks the server for every domain, the answers arrive in any order *)
(* and at any time; when all arrived it installs one snapshot in one step, or  *)
(* fails (a document cannot be installed, the context ends) without effect.    *)
(* A check looks its roles up one group after the other; its result must be    *)
(* that of one snapshot in effect at some moment of the check.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS ND, NChk, MaxV, MaxSteps, Kinds
VARIABLES inst, next, upd, chk, hist
vars == <<inst, next, upd, chk, hist>>
D == 1..ND  C == 1..NChk  Groups == {"x", "y"}
Idle == [ on |-> FALSE, v |-> 0, kind |-> "ok", waiting |-> {} ]
Init == /\ inst = 0 /\ next = 1 /\ upd = Idle /\ hist = <<>>
        /\ chk = [ c \in C |-> [ on |-> FALSE, seen |-> {}, todo |-> {} ] ]
Obs(r) == hist' = Append(hist, r @@ [ inst |-> inst', seen |-> [ c \in C |-> chk'[c].seen ] ])
Install(v) == /\ inst' = v
              /\ chk' = [ c \in C |-> IF chk[c].on THEN [ chk[c] EXCEPT !.seen = @ \cup {v} ] ELSE chk[c] ]
UpdStart(k) == /\ ~upd.on /\ next <= MaxV
               /\ upd' = [ on |-> TRUE, v |-> next, kind |-> k, waiting |-> D ]
               /\ next' = next + 1 /\ UNCHANGED <<inst, chk>>
               /\ Obs([a |-> "upd", v |-> next, kind |-> k])
Answer(d) == /\ upd.on /\ d \in upd.waiting
             /\ LET rest == upd.waiting \ {d} IN
                IF rest # {} THEN /\ upd' = [ upd EXCEPT !.waiting = rest ] /\ UNCHANGED <<inst, chk>>
                                  /\ Obs([a |-> "ans", d |-> d, done |-> FALSE, err |-> FALSE])
                ELSE /\ upd' = Idle
                     /\ IF upd.kind = "ok" THEN Install(upd.v) ELSE UNCHANGED <<inst, chk>>
                     /\ Obs([a |-> "ans", d |-> d, done |-> TRUE, err |-> upd.kind # "ok"])
             /\ UNCHANGED next
\* the context of the update ends while answers are outstanding
Cancel == /\ upd.on /\ "cancel" \in Kinds /\ upd' = Idle /\ UNCHANGED <<inst, next, chk>>
          /\ Obs([a |-> "cancel", done |-> TRUE, err |-> TRUE])
ChkStart(c) == /\ ~chk[c].on /\ chk' = [ chk EXCEPT ![c] = [ on |-> TRUE, seen |-> {inst}, todo |-> Groups ] ]
               /\ UNCHANGED <<inst, next, upd>> /\ Obs([a |-> "chk", c |-> c])
Look(c, g) == /\ chk[c].on /\ g \in chk[c].todo
              /\ chk' = [ chk EXCEPT ![c].todo = @ \ {g}, ![c].on = (chk[c].todo # {g}) ]
              /\ UNCHANGED <<inst, next, upd>> /\ Obs([a |-> "look", c |-> c, g |-> g, done |-> chk[c].todo = {g}])
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E k \in Kinds \ {"cancel"} : UpdStart(k)
           \/ \E d \in D : Answer(d)
           \/ Cancel
           \/ \E c \in C : ChkStart(c) \/ \E g \in Groups : Look(c, g)
Spec == Init /\ [][Next]_vars
View == <<inst, next, upd, chk, Len(hist)>>
\* the answer of a finished check is a snapshot that was completely installed
SeenInstalled == \A c \in C : chk[c].seen \subseteq 0..(next - 1)
FailNoEffect == [][ (upd.on /\ upd'.on = FALSE /\ upd.kind # "ok") => inst' = inst ]_vars
EmitNow == PrintT("TR " \o ToJson([nd |-> ND, nchk |-> NChk, maxv |-> MaxV, steps |-> hist']))
EmitAll == EmitNow
EmitEnd == Len(hist') < MaxSteps \/ EmitNow
=============================================================================
