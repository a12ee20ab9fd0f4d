----------------------------- MODULE UpdaterMon -----------------------------
(* C21: what a user can rely on about a background updater, as operators on a  *)
(* monitor record. Used by the model of the loop (Updater) and to validate      *)
(* recorded histories (UpdaterTrace). Times are numbers, S the tolerance.       *)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
MonInit(P, rd) == [ P |-> P, rd |-> rd, due |-> P, busy |-> FALSE, st |-> 0, ok |-> TRUE, extra |-> 0 ]
\* the next update is not overdue
Timely(m, t, S) == m.busy \/ t <= m.due + S
\* an update begins; after a successful one at most two more begin within the same period
MStart(m, t) == [ m EXCEPT !.busy = TRUE, !.extra = IF m.ok /\ t \div m.P = m.st \div m.P THEN @ + 1 ELSE 0, !.st = t ]
NotSpinning(m) == m.extra <= 2
\* it ends: the next one is due one period after its start, or when it failed after the retry delay
MEnd(m, t, ok) == [ m EXCEPT !.busy = FALSE, !.ok = ok, !.due = IF ~ok THEN t + m.rd ELSE IF t <= m.st + m.P THEN m.st + m.P ELSE t + m.P ]
OwedBy(m, t) == t + m.rd \* a failure is reported within the retry delay
=============================================================================
