------------------------------ MODULE Strings ------------------------------
(* Character strings are sequences of one-character TLA+ strings (some       *)
(* characters have a multi-letter name, e.g. "NL"; the driver decodes them). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Emit(tag, rec) == PrintT(tag \o " " \o ToJson(rec))

\* all sequences over S of length at most n
SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }

LowMap == [ x \in {"A","B","X","Y","R","S","D","K","E'","KELVIN","DOMU"} |->
            CASE x = "A" -> "a" [] x = "B" -> "b" [] x = "X" -> "x" [] x = "Y" -> "y" [] x = "R" -> "r"
              [] x = "S" -> "s" [] x = "D" -> "d" [] x = "DOMU" -> "DOM"
              [] x = "K" -> "k" [] x = "E'" -> "e'" [] x = "KELVIN" -> "k" ]
LowC(c) == IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c
Low(s)  == [ i \in 1..Len(s) |-> LowC(s[i]) ]

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
