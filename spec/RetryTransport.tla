--------------------------- MODULE RetryTransport ---------------------------
(* C25: the retrying HTTP transport. A request is a sequence of attempts with   *)
(* waits between them; every outcome and duration of every attempt.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Units,    \* the first wait in ms (1000 / factor^2): 250, 1000, 4000
          Maxes,    \* configured numbers of attempts (offset by 2: 0 stands for -2)
          Limits,   \* time limits in ms (offset by 1000)
          Lats, MaxSteps, Rnd
VARIABLES cfg, now, n, st, wake, script, open, mon
vars == <<cfg, now, n, st, wake, script, open, mon>>
Temp == {"temp", "deadline", "optemp", "urltemp", "wraptrue"}
Perm == {"perm", "tempfalse", "canceled", "wrapped", "wrapfalse"}
RetrySt == {"429", "500", "503", "504"}
DoneSt == {"200", "204", "304", "302", "400", "404", "408", "425", "501", "502", "505", "200long", "200cut"}
\* statuses with a body that breaks while it is being discarded
CutSt == {"503cut", "500long"}
Outs == Temp \cup Perm \cup RetrySt \cup DoneSt \cup CutSt
Few == {"temp", "perm", "503", "200", "503cut", "deadline"}
Attempts == IF cfg.max < 1 THEN 1 ELSE cfg.max
Wait(k) == (2 * k + 1) * cfg.unit        \* before attempt k + 2, i.e. after k + 1 attempts
Init == /\ cfg \in { [ unit |-> u, max |-> m - 2, limit |-> l - 1000, wide |-> w ] : u \in Units, m \in Maxes, l \in Limits, w \in BOOLEAN }
        /\ now = 0 /\ n = 0 /\ st = "ready" /\ wake = 0 /\ script = <<>> /\ open = 0 /\ mon = [ last |-> "", gaps |-> <<>> ]
\* one attempt; the wide alphabet for the first attempts, the narrow one after that
Choice == IF Rnd THEN { RandomElement(Outs) } ELSE IF cfg.wide /\ n = 0 THEN Outs ELSE Few
Attempt == /\ st = "ready" /\ n < MaxSteps
           /\ \E o \in Choice, l \in (IF Rnd THEN { RandomElement(Lats) } ELSE Lats) :
                /\ n' = n + 1 /\ now' = now + l
                /\ script' = Append(script, [ o |-> o, lat |-> l, start |-> now ])
                /\ mon' = [ mon EXCEPT !.last = o ]
                /\ LET t == now + l
                       end == t + Wait(n) IN
                   CASE o \in Temp /\ n + 1 < Attempts /\ end = cfg.limit -> st' = "tie" /\ wake' = t /\ open' = open
                     [] o \in Temp /\ n + 1 < Attempts /\ end < cfg.limit -> st' = "wait" /\ wake' = end /\ open' = open
                     [] o \in RetrySt \cup CutSt /\ n + 1 < Attempts -> st' = "ready" /\ wake' = t /\ open' = open   \* obtained and released
                     [] OTHER -> st' = "done" /\ wake' = t /\ open' = IF o \in RetrySt \cup CutSt \cup DoneSt THEN open + 1 ELSE open
           /\ UNCHANGED cfg
Wake == st = "wait" /\ now' = wake /\ st' = "ready" /\ UNCHANGED <<cfg, n, wake, script, open, mon>>
Next == Attempt \/ Wake
View == <<cfg, now, n, st, wake, script, open>>
\* ---- the promises
Bounded == n <= Attempts /\ (st = "done" => n >= 1)
OnlyRetryable == \A i \in 1..(n - 1) : script[i].o \in Temp \cup RetrySt \cup CutSt
\* an error is retried exactly when attempts and time are left
Decides == st = "done" /\ script[n].o \in Temp => n = Attempts \/ now + Wait(n - 1) > cfg.limit
Waits == \A i \in 1..(n - 1) : script[i + 1].start - (script[i].start + script[i].lat) = IF script[i].o \in Temp THEN Wait(i - 1) ELSE 0
InLimit == \A i \in 1..(n - 1) : script[i].o \in Temp => script[i + 1].start < cfg.limit
OneOpen == open <= 1
EmitDone == st' # "done" \/ PrintT("TR " \o ToJson([ unit |-> cfg.unit, max |-> cfg.max, limit |-> cfg.limit, script |-> script', last |-> mon'.last, returnedOpen |-> open' ]))
=============================================================================
