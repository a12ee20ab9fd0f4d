----------------------------- MODULE InitOrder -----------------------------
(* C22: initialization. cfg says which parts are enabled, R(cfg) which requests *)
(* they make. Any behaviour of Next is acceptable; a history recorded from the  *)
(* real Init must be one (InitTrace). The scripts replayed are the orders in    *)
(* which the server answers, its answers, and the moment of a cancellation.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
KeyReqs(c) == IF c.pubkeyd THEN {"zts", "zms"} ELSE {}
PolReqs(c) == IF c.policyd THEN c.doms ELSE {}
JwkReqs(c) == IF c.jwkd THEN c.urls ELSE {}
R(c) == KeyReqs(c) \cup PolReqs(c) \cup JwkReqs(c)
\* ---- the state of one initialization
\* (had: the domains whose policies an earlier initialization loaded; they are used when fetching fails)
New(c) == [ cfg |-> c, ask |-> {}, ok |-> {}, had |-> {}, cancelled |-> FALSE, ret |-> "" ]
Again(s) == [ New(s.cfg) EXCEPT !.had = s.had \cup (s.ok \cap PolReqs(s.cfg)) ]
CanAsk(s, r) == s.ret = "" /\ r \in R(s.cfg) /\ (r \in PolReqs(s.cfg) => KeyReqs(s.cfg) \subseteq s.ok)
Ask(s, r) == [ s EXCEPT !.ask = @ \cup {r}, !.ok = @ \ {r} ]
Answer(s, r, o) == [ s EXCEPT !.ok = IF o THEN @ \cup {r} ELSE @ \ {r} ]
\* policies cannot be verified without keys
Loaded(s) == R(s.cfg) \subseteq s.ok \cup s.had /\ (PolReqs(s.cfg) # {} => s.cfg.pubkeyd)
CanReturn(s, res) == s.ret = "" /\ (IF res THEN Loaded(s) ELSE ~Loaded(s) \/ s.cancelled)
Return(s, res) == [ s EXCEPT !.ret = IF res THEN "ok" ELSE "err" ]
=============================================================================
