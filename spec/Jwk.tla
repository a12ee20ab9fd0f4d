--------------------------------- MODULE Jwk ---------------------------------
(* C20 key sets per URL. Cfg: the configured extra URLs (a sequence, possibly   *)
(* naming the Athenz one or one twice).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cfgs, Bad, SetIds, MaxSteps, Rnd
VARIABLES cfg, inst, hist
vars == <<cfg, inst, hist>>
\* AC, EC, ES: other texts of the same length or prefix: the Athenz one and E1 with letters in the other case, E1 with a slash
All == {"ATHENZ", "E1", "E2", "AC", "EC", "ES", "EQ"}
CfgTab == << <<"E1", "E2">>, <<>>, <<"E1">>, <<"E2", "E1">>, <<"E1", "E1">>, <<"ATHENZ", "E1">>, <<"E1", "ATHENZ", "E2">>,
             <<"AC">>, <<"E1", "EC">>, <<"ES", "E1">>, <<"EC", "AC">>, <<"ES", "EC">>, <<"EQ", "AC", "EC", "ES">> >>
Urls(c) == {"ATHENZ"} \cup ToSet(c)
\* key id -> key number; "-" stands for a key without an id. Keys are different for every URL (the driver sees to it)
KeySets == << [ a |-> 1 ], [ a |-> 2, b |-> 3 ], ("b" :> 3) @@ ("-" :> 4), [ c |-> 7, A |-> 8 ], ("-" :> 5), << >>,
             [ x \in { "m" \o ToString(i) : i \in 1..40 } |-> 20 + CHOOSE i \in 1..40 : x = "m" \o ToString(i) ],
             [ a |-> 9 ], [ a |-> 7, b |-> 3 ], ("b" :> 5) @@ ("-" :> 4) >> \* the ids of others with other keys; 7, 8: RSA
Keys(s) == IF s \in {0, 6} THEN [ x \in {} |-> 0 ] ELSE [ x \in DOMAIN KeySets[s] \ {"-"} |-> KeySets[s][x] ]
Doc(s) == IF s = 6 THEN [ x \in {} |-> 0 ] ELSE KeySets[s]
Init == /\ \E i \in Cfgs : cfg = CfgTab[i] /\ inst = [ u \in All |-> 0 ] /\ hist = <<>>
Ans == { [ k |-> "ok", s |-> s ] : s \in SetIds } \cup { [ k |-> b, s |-> s ] : b \in Bad, s \in { CHOOSE s \in SetIds : TRUE } }
Update == \E pl \in IF Rnd THEN {TLCEval([ u \in All |-> RandomElement(IF Len(hist) >= 0 THEN Ans ELSE {}) ])} ELSE { [ u \in All |-> IF u \in Urls(cfg) THEN f[u] ELSE [ k |-> "ok", s |-> CHOOSE s \in SetIds : TRUE ] ] : f \in [ Urls(cfg) -> Ans ] },
             rel \in {SetToSeq(Urls(cfg))} :
     /\ inst' = [ u \in All |-> IF u \in Urls(cfg) /\ pl[u].k = "ok" THEN pl[u].s ELSE inst[u] ]
     /\ UNCHANGED cfg
     /\ hist' = Append(hist, [ rel |-> rel, ans |-> [ u \in Urls(cfg) |-> [ k |-> pl[u].k, doc |-> Doc(pl[u].s) ] ],
                               err |-> { u \in Urls(cfg) : pl[u].k # "ok" },
                               before |-> [ u \in Urls(cfg) |-> Keys(inst[u]) ], after |-> [ u \in Urls(cfg) |-> Keys(inst'[u]) ] ])
Next == Len(hist) < MaxSteps /\ Update
View == <<cfg, inst, Len(hist)>>
Isolated == [][ \A u \in Urls(cfg) : hist'[Len(hist')].ans[u].k # "ok" => inst'[u] = inst[u] ]_vars
UnconfiguredEmpty == \A u \in All \ Urls(cfg) : inst[u] = 0
Emit == PrintT("TR " \o ToJson([ cfg |-> cfg, steps |-> hist' ]))
EmitAll == Emit
EmitEnd == Len(hist') < MaxSteps \/ Emit
=============================================================================
