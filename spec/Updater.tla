------------------------------- MODULE Updater -------------------------------
(* The loop of a background updater (pubkey, policy, jwk): a ticker that        *)
(* remembers one tick, a queue of one retry, a sleep after (or, for key sets,   *)
(* before reporting) a failed retry. TLC checks that the loop keeps the         *)
(* promises of UpdaterMon for every outcome and duration of every update and    *)
(* every moment of cancellation; each behaviour is a script for the real code.  *)
EXTENDS UpdaterMon, FiniteSets, TLC, Json
CONSTANTS P, Rd, Lats, MaxAtt, MaxT, Variant, Rnd,
          Lag, \* the reader looks at the channel every Lag ticks (0: it always waits for a report)
          Rare \* how rarely a random behaviour is cancelled
VARIABLES now, tick, fch, st, script, cancelled, mon, owed, chan, cancelAt
vars == <<now, tick, fch, st, script, cancelled, mon, owed, chan, cancelAt>>
Init == /\ now = 0 /\ tick = FALSE /\ fch = FALSE /\ st = [ s |-> "idle", until |-> 0, src |-> "", ok |-> TRUE ] /\ script = <<>>
        /\ cancelled = FALSE /\ cancelAt = 0 /\ mon = MonInit(P, Rd) /\ owed = <<>> /\ chan = <<>>
Idle == [ s |-> "idle", until |-> 0, src |-> "", ok |-> TRUE ]
Outs == { [ ok |-> o, lat |-> l ] : o \in BOOLEAN, l \in Lats }
Begin(src) == /\ Len(script) < MaxAtt
              /\ \E o \in IF Rnd THEN {IF Lag > 60 THEN [ ok |-> RandomElement(1..40) = 1 /\ Len(script) >= 0, lat |-> RandomElement(Lats) ] ELSE RandomElement(Outs)} ELSE Outs :
                   /\ script' = Append(script, o)
                   /\ st' = [ s |-> "busy", until |-> now + o.lat, src |-> src, ok |-> o.ok ]
                   /\ mon' = MStart(mon, now)
              /\ UNCHANGED <<now, cancelled, cancelAt, owed, chan>>
TakeF == st.s = "idle" /\ fch /\ ~cancelled /\ fch' = FALSE /\ Begin("f") /\ UNCHANGED tick
TakeT == st.s = "idle" /\ tick /\ ~cancelled /\ tick' = FALSE /\ Begin("t") /\ UNCHANGED fch
\* a pending tick or retry may still be taken after the cancellation: that update fails without a request
Doomed(src) == /\ st.s = "idle" /\ cancelled
               /\ st' = [ Idle EXCEPT !.s = "busy", !.until = now + 1, !.src = src ]
               /\ mon' = MStart(mon, now)
               /\ UNCHANGED <<now, script, cancelled, cancelAt, owed, chan>>
DoomedF == fch /\ fch' = FALSE /\ Doomed("f") /\ UNCHANGED tick
DoomedT == tick /\ tick' = FALSE /\ Doomed("t") /\ UNCHANGED fch
Stop == /\ st.s = "idle" /\ cancelled /\ st' = [ Idle EXCEPT !.s = "done" ] /\ chan' = Append(chan, "ctx") /\ UNCHANGED <<now, tick, fch, script, cancelled, cancelAt, mon, owed>>
\* the update ends (a cancelled one fails at once)
End == /\ st.s = "busy" /\ (now >= st.until \/ cancelled)
       /\ LET ok == st.ok /\ now >= st.until IN
          /\ mon' = MEnd(mon, now, ok)
          /\ owed' = IF ok THEN owed ELSE Append(owed, OwedBy(mon, now) + Lag)
          /\ IF ok THEN st' = Idle /\ UNCHANGED <<chan, fch>>
             ELSE IF Variant = "jwk" \/ st.src = "f" THEN st' = [ st EXCEPT !.s = "sleep", !.until = now + Rd ] /\ (IF Variant = "jwk" THEN UNCHANGED chan ELSE chan' = Append(chan, "err")) /\ UNCHANGED fch
             ELSE st' = Idle /\ chan' = Append(chan, "err") /\ fch' = TRUE
       /\ UNCHANGED <<now, tick, script, cancelled, cancelAt>>
Wake == /\ st.s = "sleep" /\ now >= st.until /\ st' = Idle /\ fch' = TRUE
        /\ (IF Variant = "jwk" THEN chan' = Append(chan, "err") ELSE UNCHANGED chan)
        /\ UNCHANGED <<now, tick, script, cancelled, cancelAt, mon, owed>>
\* the reader keeps up, or comes back in time
Awake == IF Lag = 0 THEN TRUE ELSE now % Lag = 0
Read == /\ chan # <<>> /\ Head(chan) = "err" /\ Awake /\ chan' = Tail(chan) /\ owed' = Tail(owed) /\ UNCHANGED <<now, tick, fch, st, script, cancelled, cancelAt, mon>>
Cancel == /\ ~cancelled /\ cancelled' = TRUE /\ cancelAt' = now /\ (Rnd => RandomElement(1..Rare) = 1) /\ UNCHANGED <<now, tick, fch, st, script, mon, owed, chan>>
Urgent == \/ /\ st.s = "idle" /\ (cancelled \/ ((fch \/ tick) /\ Len(script) < MaxAtt))
          \/ /\ st.s = "busy" /\ (now >= st.until \/ cancelled)
          \/ /\ st.s = "sleep" /\ now >= st.until
          \/ /\ chan # <<>> /\ Head(chan) = "err" /\ Awake
Time == /\ ~Urgent /\ now < MaxT /\ (st.s = "idle" => Len(script) < MaxAtt) /\ now' = now + 1 /\ tick' = (tick \/ (now + 1) % P = 0) /\ UNCHANGED <<fch, st, script, cancelled, cancelAt, mon, owed, chan>>
Next == TakeF \/ TakeT \/ DoomedF \/ DoomedT \/ Stop \/ End \/ Wake \/ Read \/ Cancel \/ Time
View == <<now, tick, fch, st, script, cancelled, mon, owed, chan>>
\* ---- the loop keeps the promises
NotOverdue == cancelled \/ Timely(mon, now, 0)
Reported == \A i \in DOMAIN owed : now <= owed[i]
NoSpin == cancelled \/ NotSpinning(mon)
\* a reader that lags misses nothing: the channel holds a hundred reports
Room == Len(chan) <= 100
AllReported == st.s = "done" => /\ chan # <<>> => chan[Len(chan)] = "ctx"
                                /\ Len(owed) = Cardinality({ i \in DOMAIN chan : chan[i] = "err" })
\* once cancelled only pending ticks and retries keep it from stopping
StopsInTime == cancelled /\ st.s = "idle" => ENABLED Stop
\* one script per complete behaviour
Done == st'.s = "done" /\ st.s # "done"
EmitDone == ~Done \/ PrintT("TR " \o ToJson([ P |-> P, rd |-> Rd, script |-> script, cancel |-> cancelAt, lag |-> Lag, variant |-> Variant ]))
=============================================================================
