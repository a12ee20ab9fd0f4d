----------------------------- MODULE InitTrace -----------------------------
(* Histories recorded from real initializations must be behaviours of InitOrder. *)
EXTENDS InitOrder, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
E == Trace[i]
SetOf(q) == { q[x] : x \in DOMAIN q }
Cfg(c) == [ pubkeyd |-> c.pubkeyd, policyd |-> c.policyd, jwkd |-> c.jwkd, doms |-> SetOf(c.doms), urls |-> SetOf(c.urls) ]
Init == i = 1 /\ s = [ ret |-> "none" ] /\ TLCSet(1, 0)
Step == i' = i + 1 /\ (IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE)
Begin == E.e = "begin" /\ s.ret # "" /\ s' = (IF E.again THEN Again(s) ELSE New(Cfg(E.cfg))) /\ Step
Req == E.e = "req" /\ CanAsk(s, E.r) /\ s' = Ask(s, E.r) /\ Step
Ans == E.e = "ans" /\ s' = (IF s.ret = "" THEN Answer(s, E.r, E.ok) ELSE s) /\ Step
Cancel == E.e = "cancel" /\ s' = [ s EXCEPT !.cancelled = TRUE ] /\ Step
Ret == E.e = "ret" /\ CanReturn(s, E.ok) /\ s' = Return(s, E.ok) /\ Step
\* what was loaded is in effect: a role token and an access token for a role of d are used
Use == /\ E.e = "use" /\ s.ret = "ok"
       /\ (E.kind = "role" => E.ok = (s.cfg.pubkeyd /\ (s.cfg.policyd => E.d \in s.cfg.doms)))
       /\ (E.kind = "access" => E.ok = (s.cfg.jwkd /\ E.j \in s.cfg.urls /\ (s.cfg.policyd => E.d \in s.cfg.doms)))
       /\ UNCHANGED s /\ Step
\* later requests of the running daemons
Later == E.e = "later" /\ E.r \in R(s.cfg) /\ UNCHANGED s /\ Step
Next == i <= Len(Trace) /\ (Begin \/ Req \/ Ans \/ Cancel \/ Ret \/ Use \/ Later)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED " \o ToJson([at |-> TLCGet(1) + 1, event |-> Trace[TLCGet(1) + 1]])) /\ FALSE
=============================================================================
