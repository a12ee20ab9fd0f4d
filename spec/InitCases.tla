----------------------------- MODULE InitCases -----------------------------
(* The design of Init (keys then policies in one thread, key sets in another,   *)
(* the first failure cancels the other thread) against the promises of          *)
(* InitOrder, for every configuration, every answer and every order of answers. *)
EXTENDS InitOrder, Json
CONSTANTS Domains, Urls, Rnd
VARIABLES s, pend, todo, failed, order, outs, cAt
vars == <<s, pend, todo, failed, order, outs, cAt>>
Cfgs == [ pubkeyd : BOOLEAN, policyd : BOOLEAN, jwkd : BOOLEAN, doms : SUBSET Domains, urls : { {"j0"} \cup u : u \in SUBSET Urls } ]
Pick(S) == IF Rnd THEN {RandomElement(S)} ELSE S
None == New([ pubkeyd |-> FALSE, policyd |-> FALSE, jwkd |-> FALSE, doms |-> {}, urls |-> {} ])
Init == s = None /\ pend = {} /\ failed = FALSE /\ order = <<>> /\ cAt = 99 /\ outs = <<>> /\ todo = [ k |-> "new", p |-> "wait", j |-> "new" ]
\* threads: k(eys), p(olicies), j(wk); the policies wait for the keys
Choose == /\ todo.k = "new" /\ todo' = [ k |-> "start", p |-> "wait", j |-> "start" ]
          /\ \E c \in Pick(Cfgs) : s' = New(c) /\ \E o \in Pick([ R(c) -> BOOLEAN ]), good \in Pick(BOOLEAN) : outs' = IF Rnd /\ good THEN [ r \in R(c) |-> TRUE ] ELSE o
          /\ UNCHANGED <<pend, failed, order, cAt>>
AskAll(S) == /\ pend' = pend \cup S /\ s' = [ s EXCEPT !.ask = @ \cup S ]
StartKeys == todo.k = "start" /\ AskAll(KeyReqs(s.cfg)) /\ todo' = [ todo EXCEPT !.k = "run" ] /\ UNCHANGED <<failed, order, outs, cAt>>
StartJwk == todo.j = "start" /\ AskAll(JwkReqs(s.cfg)) /\ todo' = [ todo EXCEPT !.j = "run" ] /\ UNCHANGED <<failed, order, outs, cAt>>
KeysDone == /\ todo.k = "run" /\ pend \cap KeyReqs(s.cfg) = {}
            /\ IF KeyReqs(s.cfg) \subseteq s.ok THEN todo' = [ todo EXCEPT !.k = "done", !.p = "run" ] /\ AskAll(PolReqs(s.cfg)) /\ UNCHANGED failed
               ELSE todo' = [ todo EXCEPT !.k = "done", !.p = "done" ] /\ failed' = TRUE /\ UNCHANGED <<s, pend>>
            /\ UNCHANGED <<order, outs, cAt>>
Part(t) == IF t = "p" THEN PolReqs(s.cfg) ELSE JwkReqs(s.cfg)
PartDone(t) == /\ todo[t] = "run" /\ pend \cap Part(t) = {}
               /\ todo' = [ todo EXCEPT ![t] = "done" ]
               /\ failed' = (failed \/ ~(Part(t) \subseteq s.ok) \/ (t = "p" /\ PolReqs(s.cfg) # {} /\ ~s.cfg.pubkeyd))
               /\ UNCHANGED <<s, pend, order, outs, cAt>>
Ans(r) == /\ r \in pend /\ pend' = pend \ {r} /\ order' = Append(order, r)
          /\ s' = Answer(s, r, outs[r] /\ ~s.cancelled) /\ UNCHANGED <<todo, failed, outs, cAt>>
\* the first failure ends the requests of the other thread, except those of the policies
Abort == /\ failed \/ s.cancelled
         /\ LET a == IF s.cancelled THEN pend ELSE pend \ PolReqs(s.cfg) IN a # {} /\ pend' = pend \ a
         /\ UNCHANGED <<s, todo, failed, order, outs, cAt>>
Cancel == /\ ~s.cancelled /\ pend # {} /\ s.ret = "" /\ (Rnd => RandomElement(1..5) = 1) /\ s' = [ s EXCEPT !.cancelled = TRUE ] /\ cAt' = Len(order) /\ UNCHANGED <<pend, todo, failed, order, outs>>
Ret == /\ s.ret = "" /\ \A t \in DOMAIN todo : todo[t] = "done"
       /\ s' = Return(s, ~failed) /\ UNCHANGED <<pend, todo, failed, order, outs, cAt>>
Next == Choose \/ StartKeys \/ StartJwk \/ KeysDone \/ PartDone("p") \/ PartDone("j") \/ (\E r \in pend : Ans(r)) \/ Abort \/ Cancel \/ Ret
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- the design keeps the promises
AskOK == \A r \in s.ask : r \in R(s.cfg)
PolicyAfterKeys == s.ask \cap PolReqs(s.cfg) # {} => KeyReqs(s.cfg) \subseteq s.ok
ResultOK == /\ s.ret = "ok" => Loaded(s)
            /\ s.ret = "err" => ~Loaded(s) \/ s.cancelled
Returns == <>(s.ret # "")
Script == [ cfg |-> s.cfg, order |-> order, bad |-> { r \in DOMAIN outs : ~outs[r] }, cancel |-> cAt ]
EmitRet == (s.ret # "" \/ s'.ret = "") \/ PrintT("TR " \o ToJson(Script))
View == <<s, pend, todo, failed, order, outs, cAt>>
=============================================================================
