---------------------------- MODULE PolicyExpiry ----------------------------
(* Expiry-driven refetch (property C07). The server has, per domain, a current *)
(* document or is failing. Periodic refresh is off; when a policy in effect    *)
(* expires, all domains are fetched again before the next tick (the purge      *)
(* period is a fraction of a tick) and the result is one complete update.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS ND, MaxT, MaxV, Ttls, Fails, MaxSteps
VARIABLES now, docs, mode, fc, inst, hist
vars == <<now, docs, mode, fc, inst, hist>>
D == 1..ND
\* docs[d]: expiries of the versions published so far; mode[d]: "ok" or a failure kind
Init == /\ now = 0 /\ docs = [d \in D |-> <<2 * 2 - 1>>] /\ mode = [d \in D |-> "ok"]
        /\ fc = [d \in D |-> 0] /\ inst = [d \in D |-> 0] /\ hist = <<>>
Cur(d) == Len(docs[d])
\* fetch at half-tick time h: a live current document, else the last valid one
Fetch(d, h) == IF mode[d] = "ok" /\ h < docs[d][Cur(d)] THEN Cur(d) ELSE fc[d]
Refetch(h) == /\ fc' = [d \in D |-> Fetch(d, h)]
              /\ inst' = IF \A d \in D : fc'[d] # 0 THEN fc' ELSE inst
Obs(rec) == hist' = Append(hist, rec @@ [ t |-> now, cur |-> [d \in D |-> Cur(d)'], mode |-> mode', inst |-> inst', exp |-> [d \in D |-> IF inst'[d] = 0 THEN 0 ELSE docs[d][inst'[d]]] ])
Publish(d, ttl) == /\ Cur(d) < MaxV
                   /\ docs' = [docs EXCEPT ![d] = Append(@, 2 * (now + ttl) - 1)]
                   /\ mode' = [mode EXCEPT ![d] = "ok"]
                   /\ UNCHANGED <<now, fc, inst>>
                   /\ Obs([a |-> "pub", d |-> d, v |-> Cur(d) + 1, dexp |-> 2 * (now + ttl) - 1])
Break(d, k) == /\ mode[d] # k /\ mode' = [mode EXCEPT ![d] = k] /\ UNCHANGED <<now, docs, fc, inst>>
               /\ Obs([a |-> "mode", d |-> d, k |-> k])
Update == /\ Refetch(2 * now) /\ UNCHANGED <<now, docs, mode>>
          /\ Obs([a |-> "upd", err |-> \E d \in D : fc'[d] = 0])
\* policies in effect that expire before the next tick
Expiring == { d \in D : inst[d] # 0 /\ docs[d][inst[d]] = 2 * now + 1 }
Tick == /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<docs, mode>>
        /\ IF Expiring # {} THEN Refetch(2 * now + 2) ELSE UNCHANGED <<fc, inst>>
        /\ Obs([a |-> "tick", refetch |-> Expiring # {}])
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].a
\* changes of the server are interleaved canonically: before time passes or an update is asked for
Next == /\ Len(hist) < MaxSteps
        /\ \/ Last # "upd" /\ Update
           \/ Tick
           \/ \E d \in D : \/ \E t \in Ttls : Publish(d, t)
                           \/ \E k \in Fails : Break(d, k)
Spec == Init /\ [][Next]_vars
View == <<now, docs, mode, fc, inst, Last, Len(hist)>>
\* a live current document of every domain is in effect after the refetch, whatever failed before
Progress == [][ (now' = now + 1 /\ Expiring # {} /\ \A d \in D : mode[d] = "ok" /\ docs[d][Cur(d)] > 2 * now + 2) => inst' = [d \in D |-> Cur(d)] ]_vars
NoneMixed == (\A d \in D : inst[d] # 0) \/ (\A d \in D : inst[d] = 0)
EmitNow == PrintT("TR " \o ToJson([nd |-> ND, maxv |-> MaxV, steps |-> hist']))
EmitTick == (hist'[Len(hist')].a # "tick") \/ EmitNow
EmitEnd == Len(hist') < MaxSteps \/ EmitNow
=============================================================================
