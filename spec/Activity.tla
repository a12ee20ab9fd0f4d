------------------------------ MODULE Activity ------------------------------
(* C30: what runs in the background of an authorizer. Loops run from Start     *)
(* until the context ends; every set of policies in effect is watched for      *)
(* expiry, and only that one; updates, calls and initializations start work     *)
(* that ends with them. Between operations nothing but the loops and one        *)
(* watcher runs, however long the history; after the end nothing does.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Rnd, MaxOps, Doms, Lasts
VARIABLES ph, loops, watch, gen, work, op, hist, last
vars == <<ph, loops, watch, gen, work, op, hist, last>>
R1(S) == RandomElement(S)
Eps == {"zts", "zms", "keys", "pol", "pol2", "pols", "jwk", "all"}  \* keys: zts and zms; pol, pol2: the policies of one domain; pols: of both
O(k, ep, how) == [ k |-> k, ep |-> ep, how |-> how ]
\* a refresh of everything at the end of the period, one endpoint answering in its own way; an initialization; an expiry of the policies; calls
Faults == {"refused", "500", "garbage", "late", "notmod", "cutoff", "bare"}   \* bare: nothing is in the answer
Ops == { O("refresh", "none", "ok"), O("expire", "none", "ok"), O("init", "none", "ok") }
       \cup { O("refresh", e, f) : e \in Eps, f \in Faults } \cup { O("expire", "pol", f) : f \in {"refused", "late", "garbage", "bare"} }
       \cup { O("expire", "none", "many"), O("expire", "pol2", "many") }   \* very many policies expire at the same time
       \cup { O("init", e, f) : e \in Eps, f \in Faults \cup {"cancel"} }
       \cup { O("updates", "none", "ok"), O("updates", "pols", "bare"), O("together", "none", "ok") }   \* of the policies alone, at once one after the other or at the same time
       \cup { O("calls", "none", f) : f \in {"granted", "denied", "several", "unknown", "rejected", "ended", "ending", "cert", "access", "http", "report"} }
\* an operation during which, after so many minutes, the context ends; the fault goes on for good
None == O("none", "none", "none")
LastOps == IF ~Lasts THEN { [ o |-> None, at |-> 0 ] }
           ELSE { [ o |-> O(k, e, f), at |-> m ] : k \in {"refresh", "expire", "init"}, e \in {"keys", "pol2", "pols", "jwk", "all"}, f \in {"refused", "500", "late"}, m \in {12, 33, 38, 45} }
Loops == {"cache", "forward", "pubkeys", "policies", "keysets"}
\* the pieces of work an operation starts at once
Spawned(o) == CASE o.k = "calls" -> IF o.how \in {"granted", "denied", "several", "ended", "ending", "cert"} THEN 1 ELSE 0
                [] OTHER -> Cardinality(Doms) + 3
\* does it put a new set of policies into effect
Installs(o) == \/ o.how \in {"ok", "late", "notmod", "many"} /\ o.k # "calls"
               \/ o.k = "updates"
               \/ o.k \in {"refresh", "expire"}      \* repeated until it succeeds
Init == ph = "new" /\ loops = {} /\ watch = {} /\ gen = 0 /\ work = 0 /\ op = None /\ hist = <<>> /\ last = [ o |-> None, at |-> 0 ]
Quiet == op = None
Start == /\ ph = "new" /\ ph' = "running" /\ loops' = Loops /\ watch' = {1} /\ gen' = 1 /\ UNCHANGED <<work, op, hist, last>>
Begin == /\ ph = "running" /\ Quiet /\ Len(hist) < MaxOps
         /\ \E o \in (IF Rnd THEN { R1({ x \in Ops : Len(hist) >= 0 }) } ELSE Ops) : op' = o /\ work' = Spawned(o) /\ hist' = Append(hist, o)
         /\ UNCHANGED <<ph, loops, watch, gen, last>>
Work == ~Quiet /\ work > 0 /\ work' = work - 1 /\ UNCHANGED <<ph, loops, watch, gen, op, hist, last>>
\* the new set is watched from now on, the one it replaces no longer
Finish == /\ ~Quiet /\ work = 0 /\ op' = None
          /\ IF ph = "running" /\ Installs(op) THEN gen' = gen + 1 /\ watch' = {gen + 1} ELSE UNCHANGED <<gen, watch>>
          /\ UNCHANGED <<ph, loops, work, hist, last>>
\* the end, between operations or during the last one, which then finishes
Last == /\ ph = "running" /\ Len(hist) = MaxOps /\ Quiet /\ ph' = "last"
        /\ \E l \in (IF Rnd THEN { R1({ x \in LastOps : Len(hist) >= 0 }) } ELSE LastOps) :
              last' = l /\ op' = l.o /\ work' = (IF l.o = None THEN 0 ELSE Spawned(l.o))
        /\ UNCHANGED <<loops, watch, gen, hist>>
End == ph = "last" /\ ph' = "ended" /\ loops' = {} /\ watch' = {} /\ UNCHANGED <<gen, work, op, hist, last>>
Next == Start \/ Begin \/ Work \/ Finish \/ Last \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Work \/ Finish \/ Last \/ End)
Running == Cardinality(loops) + Cardinality(watch) + work
Bounded == Quiet => Running = (CASE ph \in {"running", "last"} -> Cardinality(Loops) + 1 [] OTHER -> 0)
OnlyCurrent == ph = "running" => watch = {gen}
Returns == (~Quiet) ~> Quiet
EndsAtAll == <>(ph = "ended" /\ Quiet /\ Running = 0) \/ <>[](ph = "running")
EmitEnd == (ph # "ended") \/ ~Quiet \/ PrintT("TR " \o ToJson([ ops |-> hist, last |-> last, grow |-> 0, left |-> Running ]))
=============================================================================
