-------------------------------- MODULE Str --------------------------------
(* Strings as sequences of one-character strings: the operations the other  *)
(* modules need.  TLC evaluates Len, SubSeq and \o on strings.              *)
EXTENDS Naturals, Sequences, FiniteSets

UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == { Ch(s, i) : i \in 1..Len(s) }
UpperSet == Chars(UpperAlpha)
LowerMap == [ c \in UpperSet |->
                Ch(LowerAlpha, CHOOSE i \in 1..26 : Ch(UpperAlpha, i) = c) ]

LowerCh(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c

RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))

(* position of the first occurrence of the one-character string c in s at or after i, 0 if none *)
RECURSIVE PosFrom(_, _, _)
PosFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE PosFrom(s, c, i + 1)
FirstPos(s, c) == PosFrom(s, c, 1)
RECURSIVE PosBack(_, _, _)
PosBack(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE PosBack(s, c, i - 1)
LastPos(s, c) == PosBack(s, c, Len(s))

(* first position at which p occurs in s, 0 if none *)
RECURSIVE SubFrom(_, _, _)
SubFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE SubFrom(s, p, i + 1)
FindSub(s, p) == SubFrom(s, p, 1)
Contains(s, p) == FindSub(s, p) # 0

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) ==
  LET k == PosFrom(s, c, i)
  IN IF k = 0 THEN << SubSeq(s, i, Len(s)) >> ELSE << SubSeq(s, i, k - 1) >> \o SplitFrom(s, c, k + 1)
Split(s, c) == SplitFrom(s, c, 1)

RECURSIVE Join(_, _)
Join(ss, c) ==
  IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o c \o Join(Tail(ss), c)

RangeOf(q) == { q[i] : i \in 1..Len(q) }

RECURSIVE Concat(_)
Concat(qs) == IF Len(qs) = 0 THEN << >> ELSE Head(qs) \o Concat(Tail(qs))

(* ---- paths: absolute POSIX paths ---- *)
RECURSIVE NormParts(_, _)
NormParts(parts, acc) ==
  IF parts = << >> THEN acc
  ELSE LET p == Head(parts) IN
       IF p \in {"", "."} THEN NormParts(Tail(parts), acc)
       ELSE IF p = ".." THEN NormParts(Tail(parts), IF acc = << >> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
       ELSE NormParts(Tail(parts), Append(acc, p))
NormPath(p) == "/" \o Join(NormParts(Split(p, "/"), << >>), "/")
DirName(p) == LET k == LastPos(p, "/") IN IF k <= 1 THEN "/" ELSE SubSeq(p, 1, k - 1)
BaseName(p) == SubSeq(p, LastPos(p, "/") + 1, Len(p))
(* pathlib's stem: the name without its last suffix *)
Stem(p) == LET b == BaseName(p) k == LastPos(b, ".") IN IF k <= 1 \/ k = Len(b) THEN b ELSE SubSeq(b, 1, k - 1)
=============================================================================
