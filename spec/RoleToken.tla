----------------------------- MODULE RoleToken -----------------------------
(* C08: parsing and validation of role tokens. A token text is a sequence of   *)
(* atoms: the separators ";" "=" ",", the letter "s", and words containing none *)
(* of them. A signature is an atom written SIG:<key>:<what it signs>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NRandom
VARIABLE case

Sub(t, i, j) == IF j < i THEN <<>> ELSE SubSeq(t, i, j)
FirstPos(t, p(_)) == IF \E i \in 1..Len(t) : p(i) THEN CHOOSE i \in 1..Len(t) : p(i) /\ \A k \in 1..(i - 1) : ~p(k) ELSE 0
RECURSIVE SplitAt(_, _)
SplitAt(t, c) == LET i == FirstPos(t, LAMBDA k : t[k] = c) IN IF i = 0 THEN <<t>> ELSE <<Sub(t, 1, i - 1)>> \o SplitAt(Sub(t, i + 1, Len(t)), c)
SigPos(t) == FirstPos(t, LAMBDA k : k + 2 <= Len(t) /\ t[k] = ";" /\ t[k+1] = "s" /\ t[k+2] = "=")

\* integral times; the others are not integers. "F" is far in the future, "N1" one second ahead, "P" past, "P1" one second ago
Ints == {"F", "N1", "P", "P1", "ZERO", "NEG", "LEAD0", "HUGE"}
Future == {"F", "N1", "LEAD0", "HUGE"}
NotInts == {"", "abc", "1e9", "FLOAT", "SPACED", "OVERFLOW", "0x10", "1_000", "NBSP"}
Keys == {"z1", "z2"}                          \* what the ZTS environment has; "m1" is a ZMS key

Fields(u) == SplitAt(u, ";")
EqPos(f) == FirstPos(f, LAMBDA k : f[k] = "=")
KeyOf(f) == Sub(f, 1, EqPos(f) - 1)
ValOf(f) == Sub(f, EqPos(f) + 1, Len(f))
\* (fs: the fields of an unsigned token)
Of(fs, key) == { i \in 1..Len(fs) : EqPos(fs[i]) > 0 /\ KeyOf(fs[i]) = <<key>> }
Get(fs, key) == LET S == Of(fs, key) IN IF S = {} THEN <<>> ELSE ValOf(fs[CHOOSE i \in S : \A j \in S : j <= i])
Word(v) == IF v = <<>> THEN "" ELSE v[1]
Integral(v) == Len(v) = 1 /\ v[1] \in Ints
WellFormed(fs) == /\ \A i \in 1..Len(fs) : EqPos(fs[i]) > 0
                  /\ \A k \in {"e", "t"} : \A i \in Of(fs, k) : Integral(ValOf(fs[i]))
NotExpired(fs) == Of(fs, "e") # {} /\ Word(Get(fs, "e")) \in Future
\* the signature part is exactly a signature by the named key over exactly the unsigned part
Signed(u, fs, s, over) == LET k == Get(fs, "k") IN Len(k) = 1 /\ k[1] \in Keys /\ Len(s) = 1 /\ s[1] = "SIG:" \o k[1] /\ over = u
Accept(t, over) == LET p == SigPos(t) IN p > 0 /\ LET u == Sub(t, 1, p - 1)  s == Sub(t, p + 3, Len(t))  fs == Fields(u) IN
                   WellFormed(fs) /\ NotExpired(fs) /\ Signed(u, fs, s, over)
Unsigned(t) == Sub(t, 1, SigPos(t) - 1)
Claims(t) == LET fs == Fields(Unsigned(t)) IN
  [ d |-> Get(fs, "d"), p |-> Get(fs, "p"), r |-> IF Of(fs, "r") = {} THEN <<>> ELSE SplitAt(Get(fs, "r"), ","), e |-> Word(Get(fs, "e")), t |-> Word(Get(fs, "t")) ]

\* ---- token texts
F(k, v) == <<k, "=">> \o v
Base == << F("v", <<"Z1">>), F("d", <<"dom">>), F("r", <<"x", ",", "y">>), F("p", <<"user">>), F("t", <<"P">>), F("e", <<"F">>), F("k", <<"z1">>) >>
RECURSIVE JoinF(_)
JoinF(fs) == IF Len(fs) = 0 THEN <<>> ELSE IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o <<";">> \o JoinF(Tail(fs))
Vals == [ d |-> { <<"dom">>, <<>>, <<"dom", "=", "evil">>, <<"DOM">>, <<"dom", "s">>, <<"s">>, <<"=">>, <<"UNI">>, <<" dom">> },
          r |-> { <<"x">>, <<"x", ",", "y">>, <<>>, <<",">>, <<"x", ",", ",", "y">>, <<"x", ",", "x">>, <<"y", ",", "x">>, <<"x", "=", "s", ",", "s">>, <<" x">> },
          p |-> { <<"user">>, <<>>, <<"user.d", "=", "evil">>, <<"s", "=">>, <<"UNI">> },
          t |-> { <<x>> : x \in Ints } \cup { <<x>> : x \in NotInts \ {""} } \cup { <<>>, <<"P", "=", "P">>, <<"P", ",", "P">> },
          e |-> { <<x>> : x \in Ints } \cup { <<x>> : x \in NotInts \ {""} } \cup { <<>>, <<"F", "=", "F">>, <<"F", ",", "F">> },
          k |-> { <<"z1">>, <<"z2">>, <<"z3">>, <<"m1">>, <<>>, <<"Z1">>, <<"z1 ">>, <<"z1", "=">> } ]
Pos == [ d |-> 2, r |-> 3, p |-> 4, t |-> 5, e |-> 6, k |-> 7 ]
With(k, v) == [ Base EXCEPT ![Pos[k]] = F(k, v) ]
Without(i) == SubSeq(Base, 1, i - 1) \o SubSeq(Base, i + 1, Len(Base))
Insert(i, f) == SubSeq(Base, 1, i) \o <<f>> \o SubSeq(Base, i + 1, Len(Base))
Junk == { <<>>, <<"junk">>, <<"s">>, <<"=">>, <<"=", "x">>, <<"h", "=", "host">>, <<"a", "=", "salt">>, <<"z">>, <<"E", "=", "P">>, <<"D", "=", "evil">>, <<"K", "=", "m1">>, <<"e ", "=", "P">>,
          <<"ss", "=", "x">>, <<"x", "s", "=">>, <<"proxy", "=", "q">>, <<"i", "=", "1.2.3.4">>, <<"v", "=", "Z1">> }
\* two cooperating deviations
RECURSIVE Rs(_)
Rs(n) == IF n = 1 THEN <<"role1">> ELSE Rs(n - 1) \o <<",", "role" \o ToString(n)>>
Big == { With("r", Rs(n)) : n \in {17, 65, 130} } \cup { Base \o [ i \in 1..n |-> <<"f" \o ToString(i), "=", "v">> ] : n \in {9, 33, 100} } \cup { [ i \in 1..n |-> <<"f" \o ToString(i), "=", "v">> ] \o Base : n \in {9, 33, 100} }
Bodies == { Base } \cup Big \cup UNION { { With(k, v) : v \in Vals[k] } : k \in DOMAIN Vals } \cup { Without(i) : i \in 1..Len(Base) }
          \cup { Insert(i, f) : i \in 0..Len(Base), f \in Junk } \cup { Reverse(Base) }
          \cup { Insert(i, F(k, v)) : i \in {0, Len(Base)}, k \in {"d", "r", "p", "k"}, v \in {<<"x">>, <<>>, <<"z2">>, <<"admin", ",", "x">>} } \* twice the same field: the last one counts
          \cup { Insert(i, F(k, <<v>>)) : i \in {0, Len(Base)}, k \in {"e", "t"}, v \in Ints \cup {"abc"} }
          \cup { Insert(i, <<"s", "=", "x">>) : i \in 1..Len(Base) }      \* an early signature mark
NoLeadS(fs) == ~(Len(fs[1]) >= 2 /\ fs[1][1] = "s" /\ fs[1][2] = "=") /\ fs[1] # <<>>
\* the signature part as a sequence of atoms; over is what was signed
Sigs(fs) == LET u == JoinF(fs) IN
  { [ s |-> <<"SIG:" \o k>>, over |-> u ] : k \in {"z1", "z2", "m1", "x9"} }
  \cup { [ s |-> <<"SIG:z1">>, over |-> JoinF(o) ] : o \in { Base, fs \o << F("x", <<"1">>) >>, Reverse(fs), fs \o << <<>> >> } }
  \cup { [ s |-> x, over |-> u ] : x \in { <<>>, <<"bad">>, <<"SIG:z1", ";", "d", "=", "evil">>, <<"SIG:z1", ";", "s", "=", "SIG:z1">>, <<"x", ";", "s", "=", "SIG:z1">>, <<"TRUNC:z1">>, <<"FLIP:z1">>, <<" ", "SIG:z1">>, <<"=", "SIG:z1">> } }
Mark == {<<";", "s", "=">>}
BadMark == { <<>>, <<";", "S", "=">>, <<"s", "=">>, <<";", "s">>, <<";", ";", "s", "=">>, <<";", " s", "=">> }
Tok(fs, m, x) == [ t |-> JoinF(fs) \o m \o x.s, over |-> x.over ]
Rnd(k) == LET R(f) == IF RandomElement({0, 0, 0, 1}) = 0 THEN Base[Pos[f]] ELSE F(f, RandomElement(Vals[f]))
              o == << F("v", <<"Z1">>), R("d"), R("r"), R("p"), R("t"), R("e"), R("k") >>
              i == RandomElement(1..7)  j == RandomElement(1..7) IN
          IF k % 2 = 0 THEN [ o EXCEPT ![i] = o[j], ![j] = o[i] ] ELSE IF k % 5 = 1 THEN o \o << RandomElement(Junk) >> ELSE IF k % 5 = 3 THEN o \o <<R(RandomElement({"d", "r", "p", "t", "e", "k"}))>> ELSE o
Init ==
  \/ \E fs \in Bodies : NoLeadS(fs) /\ \E x \in Sigs(fs) : case = Tok(fs, <<";", "s", "=">>, x)
  \/ \E x \in Sigs(Base), m \in BadMark : case = Tok(Base, m, x)
  \/ \E k \in 1..NRandom : \E fs \in {Rnd(k)} : NoLeadS(fs) /\ \E x \in { RandomElement(Sigs(fs)), [ s |-> <<"SIG:z1">>, over |-> JoinF(fs) ], [ s |-> <<"SIG:z2">>, over |-> JoinF(fs) ] } : case = Tok(fs, <<";", "s", "=">>, x)
  \/ case \in { [ t |-> x, over |-> <<>> ] : x \in { <<>>, <<";">>, <<"=">>, <<";", "s", "=">>, <<"s", "=", "x">>, <<";", "s", "=", ";", "s", "=">> } }
Next == FALSE /\ UNCHANGED case
\* laws: what is accepted has a signature over everything the claims come from
Law1 == Accept(case.t, case.over) => /\ SigPos(case.t) > 0 /\ case.over = Unsigned(case.t)
                                    /\ LET fs == Fields(Unsigned(case.t)) IN Of(fs, "e") # {} /\ Word(Get(fs, "k")) \in Keys
\* appending to or altering an accepted text makes it unaccepted
Law2 == Accept(case.t, case.over) => ~Accept(case.t \o <<"x">>, case.over) /\ ~Accept(<<"x">> \o case.t, case.over)
Out == PrintT("TR " \o ToJson([ t |-> case.t, over |-> case.over, ok |-> Accept(case.t, case.over), 
                               c |-> IF SigPos(case.t) > 0 THEN Claims(case.t) ELSE [ d |-> <<>>, p |-> <<>>, r |-> <<>>, e |-> "", t |-> "" ] ]))
=============================================================================
