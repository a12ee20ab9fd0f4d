---------------------------- MODULE PolicyDaemon ----------------------------
(* The policy daemon as seen by its user: per configured domain the last      *)
(* valid document received (fc), the document in effect (inst), the documents  *)
(* the server ever served (docs: expiry and ETag), and time.                   *)
(*                                                                             *)
(* Time unit: one tick. Expiries lie between ticks (2*t-1 half ticks), so no   *)
(* action coincides with one. An update happens within a fraction of a tick    *)
(* and time then moves to the next one.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS ND,        \* number of configured domains
          Attempts,  \* configured retry attempts (tries = 1 + Attempts)
          Margin,    \* expiry margin, in ticks
          MaxT, MaxV, Ttls, Tags,
          Bad,       \* kinds of unusable answers
          MaxGen,    \* number of signing key generations (rotations of the keys known to the client)
          Uniform,   \* TRUE: the unusable answers of one fetch are of one kind
          Rnd,       \* TRUE (simulation): plans are drawn at random instead of enumerated
          Cancels,   \* TRUE: updates with an ended context are included
          MaxSteps

VARIABLES now, docs, fc, inst, known, hist
vars == <<now, docs, fc, inst, known, hist>>
D == 1..ND

Init == /\ now = 0 /\ docs = [d \in D |-> <<>>] /\ fc = [d \in D |-> 0] /\ inst = [d \in D |-> 0]
        /\ known = 1 /\ hist = <<>>

\* a document is usable when received unexpired (its signatures are right; wrong ones are among Bad)
Alive(d, v) == 2 * now < docs[d][v].exp
Eff(d) == IF inst[d] # 0 /\ Alive(d, inst[d]) THEN inst[d] ELSE 0

\* conditional request: only with the tag of the last valid document, only while
\* that document is further than Margin from its expiry
INM(d) == IF fc[d] # 0 /\ docs[d][fc[d]].tag # "" /\ 2 * now < docs[d][fc[d]].exp - 2 * Margin
          THEN docs[d][fc[d]].tag ELSE ""

\* answers: [k |-> "doc", v], v = Len + 1 being a new document (ttl, tag), [k |-> "304"], [k |-> bad]
New(d) == { [k |-> "new", v |-> Len(docs[d]) + 1, exp |-> 2 * (now + t) - 1, tag |-> IF g = "" THEN "" ELSE "t" \o ToString(d) \o ToString(Len(docs[d]) + 1), gen |-> known ] :
            t \in (IF Len(docs[d]) < MaxV THEN Ttls ELSE {}), g \in Tags }
Old(d) == { [k |-> "doc", v |-> v, exp |-> docs[d][v].exp, tag |-> docs[d][v].tag, gen |-> docs[d][v].gen ] : v \in 1..Len(docs[d]) }
Answers(d) == New(d) \cup Old(d) \cup { [k |-> "304"] } \cup { [k |-> b] : b \in Bad }
Usable(d, o) == \/ o.k = "new"
                \/ o.k = "doc" /\ 2 * now < o.exp /\ o.gen = known
                \/ o.k = "304" /\ fc[d] # 0
U(d) == { o \in Answers(d) : Usable(d, o) }
NU(d) == { o \in Answers(d) : ~Usable(d, o) }
\* what one domain's fetch sees: unusable answers, then a usable one, at most 1 + Attempts in all
Fails(d, n) == IF Uniform THEN { [i \in 1..n |-> b] : b \in NU(d) } ELSE [1..n -> NU(d)]
Plans(d) == UNION { { p \o <<o>> : p \in Fails(d, n), o \in U(d) } : n \in 0..Attempts } \cup Fails(d, 1 + Attempts)

Result(d, p) == LET o == p[Len(p)] IN
   IF Usable(d, o) THEN (IF o.k = "304" THEN fc[d] ELSE o.v) ELSE fc[d]   \* fallback: last valid
DocsAfter(d, p) == LET o == p[Len(p)] IN
   IF o.k = "new" THEN Append(docs[d], [exp |-> o.exp, tag |-> o.tag, gen |-> o.gen]) ELSE docs[d]

Observe(rec) == hist' = Append(hist, rec @@ [ t |-> now, inst |-> inst', exp |-> [d \in D |-> IF inst'[d] = 0 THEN 0 ELSE docs'[d][inst'[d]].exp], gen |-> known' ])

Update == /\ now < MaxT
          /\ \E plan \in (IF Rnd THEN { TLCEval([d \in D |-> RandomElement(Plans(d))]) } ELSE [D -> UNION { Plans(d) : d \in D }]) :
               /\ ~Rnd => \A d \in D : plan[d] \in Plans(d)
               /\ docs' = [d \in D |-> DocsAfter(d, plan[d])]
               /\ fc' = [d \in D |-> Result(d, plan[d])]
               /\ LET ok == \A d \in D : fc'[d] # 0 IN
                  /\ inst' = IF ok THEN fc' ELSE inst
                  /\ now' = now + 1
                  /\ UNCHANGED known
                  /\ Observe([a |-> "upd", plan |-> plan, err |-> ~ok, inm |-> [d \in D |-> INM(d)], fb |-> [d \in D |-> fc[d]]])
\* the caller's context has ended: the update fails and changes nothing
Cancelled == /\ Cancels /\ now < MaxT /\ now' = now + 1
             /\ UNCHANGED <<docs, fc, inst, known>>
             /\ Observe([a |-> "cancel", err |-> TRUE])
Tick == /\ now < MaxT /\ now' = now + 1
        /\ UNCHANGED <<docs, fc, inst, known>>
        /\ Observe([a |-> "tick"])
Rotate == /\ known < MaxGen /\ known' = known + 1
          /\ UNCHANGED <<now, docs, fc, inst>>
          /\ Observe([a |-> "rot"])
Next == Len(hist) < MaxSteps /\ ((\E i \in 1..(IF Rnd THEN 4 ELSE 1) : Update) \/ Tick \/ Cancelled \/ Rotate)
Spec == Init /\ [][Next]_vars

\* ---- design checks
View == <<now, docs, fc, inst, known, Len(hist)>>
NeverExpired == \A d \in D : Eff(d) # 0 => 2 * now < docs[d][Eff(d)].exp
InstIsReceived == \A d \in D : inst[d] <= Len(docs[d]) /\ (inst[d] # 0 => fc[d] # 0)
AllOrNothing == (\A d \in D : inst[d] # 0) \/ (\A d \in D : inst[d] = 0)
\* a conditional request names the document a not-modified answer would confirm, and it is alive
CondSafe == \A d \in D : INM(d) # "" => fc[d] # 0 /\ docs[d][fc[d]].tag = INM(d) /\ 2 * now < docs[d][fc[d]].exp
FailNoEffect == [][ (hist' # hist /\ "err" \in DOMAIN hist'[Len(hist')] /\ hist'[Len(hist')].err) => inst' = inst ]_vars
\* every behaviour the model can take, one per transition
Emit2 == PrintT("TR " \o ToJson([nd |-> ND, att |-> Attempts, margin |-> Margin, maxv |-> MaxV, steps |-> hist']))
EmitAll == Emit2
EmitEnd == Len(hist') < MaxSteps \/ Emit2
NoEmit == TRUE
=============================================================================
