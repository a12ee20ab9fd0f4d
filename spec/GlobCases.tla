------------------------------ MODULE GlobCases ------------------------------
(* Enumerates pattern/value pairs, one behaviour (line) per pattern.          *)
EXTENDS Glob, Randomization
CONSTANTS Specials,   \* each gets its own family { c, a, *, ? }
          PLen, VLen, \* bounds of the exhaustive families
          NRandom, RLen, \* random longer patterns
          NLong          \* random patterns far longer than any an oracle by recursion can decide
VARIABLE case
AllChars == Specials \cup {"a", "A", "b", "*", "?", "E'", "e'"}

\* a random expansion of p: wildcards replaced by random text, letters re-cased
RECURSIVE Expand(_)
Expand(p) ==
  IF p = <<>> THEN <<>>
  ELSE (IF Head(p) = "*" THEN RandomElement(SeqsUpTo({"a", "/", "."}, 2))
        ELSE IF Head(p) = "?" THEN <<RandomElement(AllChars)>>
        ELSE IF Head(p) = "A" THEN <<"a">> ELSE IF Head(p) = "a" THEN <<RandomElement({"a", "A"})>>
        ELSE <<Head(p)>>) \o Expand(Tail(p))
\* damage one position
Mutate(s) == LET k == RandomElement(0..Len(s)) IN
  CASE k = 0 -> s \o <<RandomElement(AllChars)>>
    [] OTHER -> IF RandomElement({1,2}) = 1 THEN SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
                ELSE [s EXCEPT ![k] = RandomElement(AllChars)]
RandVals(p) == [ i \in 1..8 |-> LET e == Expand(p) IN IF i <= 3 THEN e ELSE Mutate(e) ]

\* long ones: a few wildcards among many literals
LongPat(k) == LET n == 10 + (k % 90) IN [ i \in 1..n |-> IF RandomElement(1..6) = 1 THEN RandomElement({"*", "?"}) ELSE RandomElement(AllChars \ {"*", "?"}) ]
Match(p, s) == IF Len(p) > RLen THEN NFAMatch(p, s) ELSE GlobMatch(p, s)
Uni(S, n) == SetToSeq(SeqsUpTo(S, n))
Case(p, u, nl) == [ p |-> p, u |-> u, nl |-> nl,
                    m |-> SelectSeq([ i \in 1..Len(u) |-> i ], LAMBDA i : Match(p, u[i])) ]

Init ==
  \/ \E c \in Specials : LET u == Uni({c, "a", "b"}, VLen) IN
       \E p \in SeqsUpTo({c, "a", "*", "?"}, PLen) : case = Case(p, u, FALSE)
  \/ LET u == Uni({"a", "A", "b"}, VLen) IN
       \E p \in SeqsUpTo({"a", "A", "b", "*", "?"}, PLen) : case = Case(p, u, FALSE)
  \/ LET u == Uni({"e'", "E'", "EMO"}, VLen) IN
       \E p \in SeqsUpTo({"e'", "E'", "?", "*"}, PLen) : case = Case(p, u, FALSE)
  \/ LET u == Uni({"k", "KELVIN", "K"}, 2) IN
       \E p \in SeqsUpTo({"k", "KELVIN", "*"}, 2) : case = Case(p, u, FALSE)
  \/ LET u == Uni({"NL", "a"}, 2) IN
       \E p \in SeqsUpTo({"NL", "a", "*", "?"}, 2) : case = Case(p, u, TRUE)
  \* (bound by \E, not LET: TLC may evaluate a LET body more than once)
  \/ \E k \in 1..NRandom : \E p \in {RandomElement([1..(2 + (k % (RLen - 1))) -> AllChars])} :
       \E u \in {RandVals(p)} : case = Case(p, u, FALSE)
  \/ \E k \in 1..NLong : \E p \in {TLCEval(LongPat(k))} : \E u \in {TLCEval(RandVals(p))} : case = Case(p, u, FALSE)
Next == FALSE /\ UNCHANGED case

\* The independent characterisations agree, and general laws of the matching hold.
DesignOK == Len(case.p) <= RLen => \A i \in 1..Len(case.u) : GlobMatch(case.p, case.u[i]) = NFAMatch(case.p, case.u[i])
Laws == /\ \A i \in 1..Len(case.u) : Match(<<"*">>, case.u[i])
        /\ \A i \in 1..Len(case.u) : Match(case.p, case.u[i]) = Match(Low(case.p), Low(case.u[i]))
        /\ (\A j \in 1..Len(case.p) : case.p[j] \notin {"*", "?"}) =>
             \A i \in 1..Len(case.u) : Match(case.p, case.u[i]) <=> Low(case.p) = Low(case.u[i])
Out == Emit("TR", case)
=============================================================================
