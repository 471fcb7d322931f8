-------------------------------- MODULE Strs --------------------------------
(* Operators on strings, and version comparison. *)
EXTENDS Integers, Sequences, TLC

Chr(s, i) == SubSeq(s, i, i)
DIGITS == "0123456789"
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
LowerSet == {Chr(LOWER, i) : i \in 1..26}
UpperSet == {Chr(UPPER, i) : i \in 1..26}
AlphaSet == LowerSet \cup UpperSet

RECURSIVE PosFrom(_, _, _)
PosFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE PosFrom(s, c, i + 1)
Pos(s, c) == PosFrom(s, c, 1)

RECURSIVE MapStr(_, _)
MapStr(Op(_), s) == IF s = "" THEN "" ELSE Op(Chr(s, 1)) \o MapStr(Op, SubSeq(s, 2, Len(s)))

ToUpper(s) == MapStr(LAMBDA c : IF c \in LowerSet THEN Chr(UPPER, Pos(LOWER, c)) ELSE c, s)
ToLower(s) == MapStr(LAMBDA c : IF c \in UpperSet THEN Chr(LOWER, Pos(UPPER, c)) ELSE c, s)
Underscorify(s) == MapStr(LAMBDA c : IF c \in AlphaSet \cup DigitSet THEN c ELSE "_", s)

From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p

(* first position at or after i where p occurs in s, 0 for none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
                     ELSE FindFrom(s, p, i + 1)
Contains(s, p) == p = "" \/ FindFrom(s, p, 1) # 0

RECURSIVE Intersperse(_, _)
Intersperse(s, r) == IF s = "" THEN r ELSE r \o Chr(s, 1) \o Intersperse(From(s, 2), r)
RECURSIVE ReplaceNE(_, _, _)
ReplaceNE(s, p, r) == LET k == FindFrom(s, p, 1)
                      IN IF k = 0 THEN s
                         ELSE SubSeq(s, 1, k - 1) \o r \o ReplaceNE(From(s, k + Len(p)), p, r)
Replace(s, p, r) == IF p = "" THEN Intersperse(s, r) ELSE ReplaceNE(s, p, r)

RECURSIVE SplitOn(_, _)
SplitOn(s, p) == LET k == FindFrom(s, p, 1)
                 IN IF k = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(From(s, k + Len(p)), p)

WS == {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_, _)
LStrip(s, C) == IF s # "" /\ Chr(s, 1) \in C THEN LStrip(From(s, 2), C) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, C) == IF s # "" /\ Chr(s, Len(s)) \in C THEN RStrip(SubSeq(s, 1, Len(s) - 1), C) ELSE s
Strip(s, C) == RStrip(LStrip(s, C), C)
CharsOf(s) == {Chr(s, i) : i \in 1..Len(s)}

RECURSIVE WordEnd(_, _, _)
WordEnd(s, C, i) == IF i > Len(s) \/ Chr(s, i) \in C THEN i - 1 ELSE WordEnd(s, C, i + 1)
RECURSIVE Words(_)
Words(s) == LET t == LStrip(s, WS)
            IN IF t = "" THEN <<>>
               ELSE LET e == WordEnd(t, WS, 1) IN <<SubSeq(t, 1, e)>> \o Words(From(t, e + 1))

RECURSIVE JoinSeq(_, _)
JoinSeq(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinSeq(Tail(q), sep)

AllIn(s, C) == \A i \in 1..Len(s) : Chr(s, i) \in C
IsNat(s) == s # "" /\ AllIn(s, DigitSet)
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE ToNat(SubSeq(s, 1, Len(s) - 1)) * 10 + (Pos(DIGITS, Chr(s, Len(s))) - 1)
IsIntStr(s) == IsNat(s) \/ (s # "" /\ Chr(s, 1) \in {"-", "+"} /\ IsNat(From(s, 2)))
ToIntS(s) == IF Chr(s, 1) = "-" THEN 0 - ToNat(From(s, 2)) ELSE IF Chr(s, 1) = "+" THEN ToNat(From(s, 2)) ELSE ToNat(s)

\* ---------------------------------------------------------------- versions
(* A version is the sequence of its maximal runs of digits or of letters.   *)
RECURSIVE Segments(_)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, C, i) == IF i > Len(s) \/ Chr(s, i) \notin C THEN i - 1 ELSE RunEnd(s, C, i + 1)
Segments(s) ==
  IF s = "" THEN <<>>
  ELSE LET c == Chr(s, 1)
           C == IF c \in DigitSet THEN DigitSet ELSE AlphaSet
       IN IF c \in DigitSet \cup AlphaSet
          THEN LET e == RunEnd(s, C, 1) IN <<SubSeq(s, 1, e)>> \o Segments(From(s, e + 1))
          ELSE Segments(From(s, 2))

RECURSIVE DropZeros(_)
DropZeros(s) == IF s # "" /\ Chr(s, 1) = "0" THEN DropZeros(From(s, 2)) ELSE s

ASCII == DIGITS \o UPPER \o LOWER
RECURSIVE StrCmp(_, _)
StrCmp(a, b) == IF a = "" /\ b = "" THEN 0
                ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
                ELSE LET x == Pos(ASCII, Chr(a, 1)) y == Pos(ASCII, Chr(b, 1))
                     IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE StrCmp(From(a, 2), From(b, 2))

SegCmp(a, b) ==
  LET na == IsNat(a) nb == IsNat(b)
  IN IF na /\ ~nb THEN 1 ELSE IF nb /\ ~na THEN -1
     ELSE IF ~na THEN StrCmp(a, b)
     ELSE LET x == DropZeros(a) y == DropZeros(b)
          IN IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE StrCmp(x, y)

RECURSIVE SegsCmp(_, _)
SegsCmp(p, q) == IF p = <<>> /\ q = <<>> THEN 0
                 ELSE IF p = <<>> THEN -1 ELSE IF q = <<>> THEN 1
                 ELSE LET c == SegCmp(p[1], q[1]) IN IF c # 0 THEN c ELSE SegsCmp(Tail(p), Tail(q))
VerCmp(a, b) == SegsCmp(Segments(a), Segments(b))

VerOps == <<">=", "<=", "!=", "==", "=", ">", "<">>
VerOp(req) == LET M == {i \in 1..7 : StartsWith(req, VerOps[i])}
              IN IF M = {} THEN "" ELSE VerOps[CHOOSE i \in M : \A j \in M : i <= j]
Satisfies(ver, req) ==
  LET op == VerOp(req) c == VerCmp(ver, From(req, Len(op) + 1))
  IN CASE op = ">=" -> c >= 0 [] op = "<=" -> c <= 0 [] op = "!=" -> c # 0
       [] op = ">" -> c > 0 [] op = "<" -> c < 0 [] OTHER -> c = 0
=============================================================================
