------------------------------- MODULE Pubkey -------------------------------
(* C18 installed public keys, C19 use of their ETag. Per environment: the key  *)
(* set the client has installed, the key set (with or without an ETag) the     *)
(* server has, and the ETag that may be sent. An update asks both environments *)
(* concurrently; the answers arrive in either order.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sets,      \* which key sets the server may publish
          Bad,       \* kinds of failing answers
          Tags,      \* subset of BOOLEAN: whether sets are published with an ETag
          Life,      \* lifetime of an ETag, in ticks
          MaxT, MaxSteps, Rnd, Both \* Both: every combination of the two environments, otherwise one of them serves its current set
VARIABLES now, srv, inst, ct, nm, hist \* nm: history only: when each environment last answered not modified
vars == <<now, srv, inst, ct, nm, hist>>
Envs == {"zts", "zms"}
\* key id -> key (the driver uses different keys for the two environments, with the same ids)
KeySet == << [ a |-> 1 ], [ a |-> 1, b |-> 2 ], [ b |-> 2, c |-> 3 ], [ a |-> 4, b |-> 2, c |-> 3 ], [ x \in {} |-> 0 ],
             [ x \in { "k" \o ToString(i) : i \in 1..60 } |-> 1 + ((CHOOSE i \in 1..60 : "k" \o ToString(i) = x) % 4) ],
             ("a" :> 2) @@ ("A" :> 1) @@ ("a " :> 3) @@ ("0" :> 4) @@ ("00" :> 1) @@ ("a.b" :> 2) @@ ("a/b" :> 3) @@ ("*" :> 4) @@ ("zts" :> 1) @@ ("" :> 3) >>
Keys(s) == IF s = 0 THEN [ x \in {} |-> 0 ] ELSE KeySet[s]
TagOf(x) == IF x.tag THEN "t" \o ToString(x.set) ELSE ""
NoTag == [ tag |-> "", at |-> 0 ]
Init == /\ now = 0 /\ srv = [ e \in Envs |-> [ set |-> 0, tag |-> FALSE ] ] /\ inst = [ e \in Envs |-> 0 ] /\ ct = [ e \in Envs |-> NoTag ]
        /\ nm = [ e \in Envs |-> 0-1 ] /\ hist = <<>>
\* the only ETag a request may carry
May(e) == IF ct[e].tag # "" /\ now - ct[e].at < Life THEN ct[e].tag ELSE ""
\* answers: the server publishes a set (possibly the same as before) and answers properly, or fails in some way
Pub == { [ set |-> s, tag |-> g ] : s \in Sets, g \in Tags }
Uninstallable == {"badb64", "badpem", "nullkey", "badlast"}
Ans == { [ k |-> "ok", p |-> p ] : p \in Pub } \cup { [ k |-> b, p |-> p ] : b \in Bad, p \in { x \in Pub : x.set # 5 } }
Same(e) == [ k |-> "ok", p |-> srv[e] ]
Plans == IF Both THEN [ Envs -> Ans ] ELSE { pl \in [ Envs -> Ans ] : \E e \in Envs : pl[e].k = "ok" /\ (srv[e].set # 0 => pl[e] = Same(e)) }
Fails(x) == x.k # "ok"
After(e, x) == \* [inst, ct] of environment e after its answer
  IF x.k = "ok" THEN (IF May(e) # "" /\ May(e) = TagOf(x.p) THEN [ inst |-> inst[e], ct |-> ct[e] ]                   \* not modified
                      ELSE [ inst |-> x.p.set, ct |-> IF x.p.tag THEN [ tag |-> TagOf(x.p), at |-> now ] ELSE NoTag ])
  ELSE [ inst |-> inst[e], ct |-> IF x.k \in Uninstallable THEN NoTag ELSE ct[e] ]
Obs(rec) == hist' = Append(hist, rec)
Update == \E pl \in IF Rnd THEN {TLCEval([ e \in Envs |-> IF RandomElement(1..2) = 1 /\ srv[e].set # 0 THEN Same(e) ELSE RandomElement(Ans) ])} ELSE Plans, first \in IF Rnd THEN {RandomElement(Envs)} ELSE Envs :
            /\ ~Both /\ ~Rnd => first = "zts"
            /\ LET snd == CHOOSE e \in Envs : e # first
                   a1 == After(first, pl[first])
                   a2 == After(snd, pl[snd]) IN
               /\ srv' = [ e \in Envs |-> pl[e].p ]
               /\ inst' = [ inst EXCEPT ![first] = a1.inst, ![snd] = a2.inst ]
               /\ ct' = [ ct EXCEPT ![first] = a1.ct, ![snd] = a2.ct ]
               /\ Obs([ a |-> "upd", t |-> now, first |-> first, ans |-> [ e \in Envs |-> [ k |-> pl[e].k, set |-> Keys(pl[e].p.set), tag |-> TagOf(pl[e].p) ] ],
                        may |-> [ e \in Envs |-> May(e) ], err |-> \E e \in Envs : Fails(pl[e]),
                        mid |-> [ [ e \in Envs |-> Keys(inst[e]) ] EXCEPT ![first] = Keys(a1.inst) ], end |-> [ e \in Envs |-> Keys(inst'[e]) ] ])
            /\ nm' = [ e \in Envs |-> IF pl[e].k = "ok" /\ May(e) # "" /\ May(e) = TagOf(pl[e].p) THEN now ELSE nm[e] ]
            /\ UNCHANGED now
Tick == /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<srv, inst, ct, nm>> /\ Obs([ a |-> "tick", t |-> now' ])
Next == Len(hist) < MaxSteps /\ ((\E n \in 1..(IF Rnd THEN 3 ELSE 1) : Update) \/ Tick)
View == <<now, srv, inst, ct, nm, Len(hist)>>
\* ---- design
\* an ETag that may be sent belongs to the installed key set
TagInstalled == \A e \in Envs : May(e) # "" => \E s \in Sets : inst[e] = s /\ May(e) = "t" \o ToString(s)
\* after an update without failure both environments have what the server has
Fresh == [][ (hist' # hist /\ hist'[Len(hist')].a = "upd") => \A e \in Envs : hist'[Len(hist')].ans[e].k = "ok" => inst'[e] = srv'[e].set ]_vars
FailKeeps == [][ (hist' # hist /\ hist'[Len(hist')].a = "upd") => \A e \in Envs : hist'[Len(hist')].ans[e].k # "ok" => inst'[e] = inst[e] ]_vars
Emit == PrintT("TR " \o ToJson([ life |-> Life, steps |-> hist' ]))
EmitAll == hist'[Len(hist')].a = "upd" => Emit
EmitEnd == Len(hist') < MaxSteps \/ Emit
=============================================================================
