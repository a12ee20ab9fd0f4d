---------------------------- MODULE UpdaterTrace ----------------------------
(* Validates recorded histories of real updaters (one or, for the authorizer,  *)
(* several with a common error channel) against the promises of UpdaterMon.     *)
EXTENDS UpdaterMon, FiniteSets, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
S == 100 \* ms
VARIABLES i, mon, owed, ph, cAt, single, lag
vars == <<i, mon, owed, ph, cAt, single, lag>>
E == Trace[i]
Init == i = 1 /\ mon = <<>> /\ owed = <<>> /\ ph = "new" /\ cAt = 0 /\ single = TRUE /\ lag = 0 /\ TLCSet(1, 0)
Step == i' = i + 1 /\ (IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE)
\* the report that was due first
Remove1(s) == IF s = <<>> THEN s ELSE LET k == CHOOSE x \in DOMAIN s : \A y \in DOMAIN s : s[x] <= s[y] IN [ x \in 1..(Len(s) - 1) |-> IF x < k THEN s[x] ELSE s[x + 1] ]
\* a new updater (or authorizer); the previous one was closed
Begin == /\ E.e = "begin" /\ ph \in {"new", "closed"}
         /\ mon' = [ k \in DOMAIN E.kinds |-> MonInit(E.kinds[k].P, E.kinds[k].rd) ] /\ owed' = <<>> /\ ph' = "run" /\ cAt' = 0 /\ single' = E.direct /\ lag' = E.lag /\ Step
AllTimely == \/ ph # "run"
             \/ /\ \A k \in DOMAIN mon : Timely(mon[k], E.at, S)
                /\ \A x \in DOMAIN owed : E.at <= owed[x] + S
Start == /\ E.e = "s" /\ ph = "run" /\ AllTimely /\ mon' = [ mon EXCEPT ![E.k] = MStart(@, E.at) ] /\ NotSpinning(mon'[E.k]) /\ UNCHANGED <<owed, ph, cAt, single, lag>> /\ Step
End == /\ E.e = "f" /\ mon' = [ mon EXCEPT ![E.k] = MEnd(@, E.at, E.ok) ]
       /\ owed' = (IF E.ok \/ ph # "run" THEN owed ELSE Append(owed, OwedBy(mon[E.k], E.at) + lag)) /\ UNCHANGED <<ph, cAt, single, lag>> /\ Step
\* every report is owed, except those of updates ended by the cancellation
Err == /\ E.e = "err" /\ ph \in {"run", "cancelled"} /\ AllTimely /\ (ph = "run" => owed # <<>>)
       /\ owed' = Remove1(owed) /\ UNCHANGED <<mon, ph, cAt, single, lag>> /\ Step
Cancel == /\ E.e = "cancel" /\ ph = "run" /\ AllTimely /\ ph' = "cancelled" /\ cAt' = E.at /\ UNCHANGED <<mon, owed, single, lag>> /\ Step
\* the context's error comes last, after every report that was owed (an authorizer forwards only until its context ends)
Last == /\ E.e = "last" /\ ph = "cancelled" /\ (single => owed = <<>>) /\ ph' = "last" /\ UNCHANGED <<mon, owed, cAt, single, lag>> /\ Step
Close == /\ E.e = "close" /\ ph = "last" /\ ph' = "closed" /\ UNCHANGED <<mon, owed, cAt, single, lag>> /\ Step
\* the end of the observation
Over == /\ E.e = "over" /\ ph = "closed" /\ UNCHANGED <<mon, owed, ph, cAt, single, lag>> /\ Step
Next == i <= Len(Trace) /\ (Begin \/ Start \/ End \/ Err \/ Cancel \/ Last \/ Close \/ Over)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED " \o ToJson([at |-> TLCGet(1) + 1, event |-> Trace[TLCGet(1) + 1]])) /\ FALSE
=============================================================================
