------------------------------- MODULE Release -------------------------------
(* C29: the life of a response. A fetch obtains at most one response per        *)
(* request; whatever it makes of it, the response is released before the update *)
(* returns. The environment chooses every answer: status, content, how the       *)
(* reading and the closing of the body go.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Rnd, MaxUpd
VARIABLES kind, prior, st, open, ans, seq
vars == <<kind, prior, st, open, ans, seq>>
Kinds == {"zts", "zms", "pol", "jwk", "jwk2"}
Statuses == {0, 200, 201, 202, 204, 206, 300, 301, 302, 304, 400, 401, 403, 404, 408, 429, 500, 502, 503}
Bodies == {"good", "tail", "garbage", "empty", "long", "null", "bad"}
Modes == {"", "cut", "cut0", "closeerr"}
Answers == [ status : Statuses, body : Bodies, mode : Modes, tag : BOOLEAN, len : {1, 2} ]
R(a) == a.status = 0 => a.body = "empty" /\ a.mode = "" /\ ~a.tag /\ a.len = 1
R1(S) == RandomElement(S)
Init == kind \in Kinds /\ prior \in {"none", "tag", "notag"} /\ st = "idle" /\ open = 0 /\ ans = [ status |-> 0, body |-> "", mode |-> "", tag |-> FALSE, len |-> 1 ] /\ seq = <<>>
Answer == /\ st = "idle" /\ Len(seq) < MaxUpd
          /\ \E k \in (IF Rnd THEN {R1(Kinds)} ELSE {kind}) : \E a \in (IF Rnd THEN {R1(Answers)} ELSE Answers) :
               /\ R(a) /\ kind' = k /\ ans' = a /\ st' = IF a.status = 0 THEN "failed" ELSE "obtained"
               /\ open' = IF a.status = 0 THEN open ELSE open + 1
               /\ seq' = Append(seq, [ kind |-> k, ans |-> a ])
          /\ UNCHANGED prior
\* not modified, refused, or decoded: each way leads to the release
Inspect == st = "obtained" /\ st' = (IF ans.status = 200 THEN "reading" ELSE "drop") /\ UNCHANGED <<kind, prior, open, ans, seq>>
Read == st = "reading" /\ st' = "drop" /\ UNCHANGED <<kind, prior, open, ans, seq>>
\* closing may report an error; the response is released all the same
Drop == st = "drop" /\ open' = open - 1 /\ st' = "returned" /\ UNCHANGED <<kind, prior, ans, seq>>
Fail == st = "failed" /\ st' = "returned" /\ UNCHANGED <<kind, prior, open, ans, seq>>
Return == st = "returned" /\ st' = "idle" /\ UNCHANGED <<kind, prior, open, ans, seq>>
Next == Answer \/ Inspect \/ Read \/ Drop \/ Fail \/ Return
Released == st \in {"idle", "returned"} => open = 0
Spec == Init /\ [][Next]_vars /\ WF_vars(Inspect \/ Read \/ Drop \/ Fail \/ Return)
Ends == (st # "idle") ~> (st = "idle")
EmitEnd == ~(st = "returned" /\ Len(seq) = MaxUpd) \/ PrintT("TR " \o ToJson([ prior |-> prior, seq |-> seq, open |-> open ]))
=============================================================================
