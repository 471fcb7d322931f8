------------------------------- MODULE Paths -------------------------------
(* Paths as strings with / as separator. *)
EXTENDS Strs

Abs(p) == p # "" /\ Chr(p, 1) = "/"
RECURSIVE Clean(_)
Clean(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in {"", "."} THEN <<>> ELSE <<Head(s)>>) \o Clean(Tail(s))
Parts(p) == Clean(SplitOn(p, "/"))
FromParts(abs, s) == IF abs THEN "/" \o JoinSeq(s, "/") ELSE IF s = <<>> THEN "." ELSE JoinSeq(s, "/")
(* without empty and . elements; .. is kept *)
Norm(p) == IF p = "" THEN "" ELSE FromParts(Abs(p), Parts(p))
(* a relative path below another one; an absolute one replaces it *)
Join(a, b) == IF Abs(b) \/ a = "" THEN Norm(b) ELSE IF b = "" THEN Norm(a) \o "/" ELSE Norm(a \o "/" \o b)
(* below another one even if it is absolute *)
Below(a, b) == Norm(a \o "/" \o b)
Base(p) == LET s == Parts(p) IN IF s = <<>> THEN "" ELSE s[Len(s)]
Dir(p) == LET s == Parts(p) IN IF s = <<>> THEN Norm(p) ELSE FromParts(Abs(p), SubSeq(s, 1, Len(s) - 1))
IsUnder(p, q) == LET a == Parts(p) b == Parts(q) IN Abs(p) = Abs(q) /\ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* proper prefixes of an absolute path, outermost first *)
Ancestors(p) == LET s == Parts(p) IN [i \in 1..Len(s) |-> FromParts(Abs(p), SubSeq(s, 1, i - 1))]
RelTo(base, p) == FromParts(FALSE, SubSeq(Parts(p), Len(Parts(base)) + 1, Len(Parts(p))))
=============================================================================
