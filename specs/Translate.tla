----------------------------- MODULE Translate -----------------------------
(* Translating the text of a problem.  A message template has printf-style  *)
(* holes; a translation is a str.format template.                           *)
EXTENDS Str, TLC

Letters == UpperSet \cup Chars(LowerAlpha)
WordCh == Letters \cup Chars(Digits) \cup {"_"}

RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN SkipIn(s, i + 1, set) ELSE i

(* the position after the printf hole that starts at i ("%"), 0 if none does *)
HoleEnd(s, i) ==
  LET a == IF i + 1 <= Len(s) /\ Ch(s, i + 1) = "("
           THEN LET j == SkipIn(s, i + 2, WordCh) IN IF j <= Len(s) /\ Ch(s, j) = ")" THEN j + 1 ELSE 0
           ELSE i + 1
      b == IF a # 0 /\ a <= Len(s) /\ Ch(s, a) = "#" THEN a + 1 ELSE a
      c == IF b = 0 THEN 0 ELSE SkipIn(s, b, Chars(Digits))
  IN IF c # 0 /\ c <= Len(s) /\ Ch(s, c) \in Letters THEN c + 1 ELSE 0

(* the literal parts around the holes of a message template *)
RECURSIVE PartsFrom(_, _, _)
PartsFrom(s, i, acc) ==
  IF i > Len(s) THEN << acc >>
  ELSE IF Ch(s, i) # "%" THEN PartsFrom(s, i + 1, acc \o Ch(s, i))
  ELSE IF HoleEnd(s, i) # 0 THEN << acc >> \o PartsFrom(s, HoleEnd(s, i), "")
  ELSE IF i < Len(s) /\ Ch(s, i + 1) = "%" THEN PartsFrom(s, i + 2, acc \o "%")
  ELSE PartsFrom(s, i + 1, acc \o "%")
Parts(tmpl) == TLCEval(PartsFrom(tmpl, 1, ""))

Occurs(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

(* all ways to read s from position i as hole, literal, hole, literal, ..., literal *)
RECURSIVE Readings(_, _, _)
Readings(s, i, lits) ==
  IF lits = << >> THEN {<< >>}
  ELSE LET l == Head(lits)
           last == Len(lits) = 1
           ends == { j \in i..(Len(s) + 1) : Occurs(s, l, j) /\ (last => j + Len(l) - 1 = Len(s)) }
       IN UNION { { << SubSeq(s, i, j - 1) >> \o r : r \in Readings(s, j + Len(l), Tail(lits)) } : j \in ends }
(* the variable parts of message s of template with the given parts; {} if it is not such a message *)
Extracts(s, parts) ==
  IF Len(parts) = 1 THEN (IF s = parts[1] THEN {<< >>} ELSE {})
  ELSE IF ~StartsWith(s, parts[1]) THEN {} ELSE Readings(s, Len(parts[1]) + 1, Tail(parts))

(* str.format with positional arguments: [ok, s] *)
Bad == [ok |-> FALSE, s |-> ""]
RECURSIVE Num(_, _)
Num(s, acc) ==
  IF s = "" THEN acc
  ELSE Num(SubSeq(s, 2, Len(s)), acc * 10 + (CHOOSE d \in 0..9 : Ch(Digits, d + 1) = Ch(s, 1)))
RECURSIVE FormatFrom(_, _, _, _, _, _)
FormatFrom(t, i, args, mode, next, acc) ==     \* mode: "" | "auto" | "manual"
  IF i > Len(t) THEN [ok |-> TRUE, s |-> acc]
  ELSE LET c == Ch(t, i) d == IF i < Len(t) THEN Ch(t, i + 1) ELSE "" IN
  IF c = "{" /\ d = "{" THEN FormatFrom(t, i + 2, args, mode, next, acc \o "{")
  ELSE IF c = "}" /\ d = "}" THEN FormatFrom(t, i + 2, args, mode, next, acc \o "}")
  ELSE IF c = "}" THEN Bad
  ELSE IF c # "{" THEN FormatFrom(t, i + 1, args, mode, next, acc \o c)
  ELSE LET j == SkipIn(t, i + 1, Chars(Digits))
           field == SubSeq(t, i + 1, j - 1) IN
       IF j > Len(t) \/ Ch(t, j) # "}" THEN Bad
       ELSE IF field = "" THEN
              (IF mode = "manual" \/ next > Len(args) THEN Bad
               ELSE FormatFrom(t, j + 1, args, "auto", next + 1, acc \o args[next]))
       ELSE IF mode = "auto" \/ Num(field, 0) + 1 > Len(args) THEN Bad
       ELSE FormatFrom(t, j + 1, args, "manual", next, acc \o args[Num(field, 0) + 1])
Format(t, args) == FormatFrom(t, 1, args, "", 1, "")

(* translations of variable parts: ex = Seq([n, from, to]), n counts from 1 *)
Translated(args, ex) ==
  [ k \in 1..Len(args) |->
      LET is == { i \in 1..Len(ex) : ex[i].n = k /\ ex[i].from = args[k] }
      IN IF is = {} THEN args[k] ELSE ex[CHOOSE i \in is : TRUE].to ]

(* the texts a message of template tmpl ("" if unknown) may be translated to *)
Filled(t, args) == LET f == Format(t, args) IN IF f.ok THEN f.s ELSE t
Texts(tmpl, text, t, ex) ==
  LET parts == Parts(tmpl)
      rs == IF Len(parts) = 1 THEN {} ELSE Extracts(text, parts)
  IN IF rs = {} THEN {t} ELSE { Filled(t, Translated(r, ex)) : r \in rs }
=============================================================================
