-------------------------------- MODULE Lint --------------------------------
(* From the messages of the linters to the result of a check: overriding,   *)
(* filtering and rewording, naming of files, ordering, printing.            *)
(*                                                                          *)
(* A message is [src, file, line, col, code, symbol, text, el, ec]; file is *)
(* the absolute path the way the argument spells it.  A problem of a result *)
(* is a message with the additional fields path (the name shown) and by.    *)
EXTENDS Config, Integers

Overriders ==
  [ C0104 |-> {"R6307", "R6609", "F841", "W0613"},
    C0103 |-> {"R6307", "R6609", "F841", "W0613"},
    E225  |-> {"R6609"},
    R1705 |-> {"R1703", "R6201"},
    R6610 |-> {"R6608"},
    W0107 |-> {"W0101"},
    C0201 |-> {"C0206"},
    R6216 |-> {"R6211", "R6212", "R6214", "R6215"},
    R6213 |-> {"R6216"},
    R6221 |-> {"R6222"},
    R6218 |-> {"R6222"} ]
OverridersOf(c) == IF c \in DOMAIN Overriders THEN Overriders[c] ELSE {}
(* raws: all the messages found, whether themselves overridden or not *)
Overridden(x, raws) ==
  \E i \in 1..Len(raws) :
    raws[i].file = x.file /\ raws[i].line = x.line /\ raws[i].code \in OverridersOf(x.code)

(* ---- filtering and rewording ---- *)
(* the part of text after prefix p, up to the last occurrence of c *)
Between(text, p, c) == LET t == After(text, p) IN SubSeq(t, 1, LastPos(t, c) - 1)
Unquote(s) == IF Len(s) >= 2 /\ Ch(s, 1) \in {"'", "\""} THEN SubSeq(s, 2, Len(s) - 1) ELSE s
CountOf(s, c) == Cardinality({ i \in 1..Len(s) : Ch(s, i) = c })
FirstWord(s) == LET k == FirstPos(s, " ") IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)

Is(x, src, code) == x.src = src /\ x.code = code
DisName == "Disallowed name \""
(* val: the option values of the file *)
Keep(x, val) ==      \* subset of {TRUE, FALSE}: what may happen
  CASE Is(x, "pylint", "C0104") ->
         LET n == Between(x.text, DisName, "\"") a == val["allowed-onechar-names"]
         IN { Len(n) # 1 \/ a = << >> \/ ~Contains(a[1], n) }
    [] Is(x, "flake8", "F401") ->
         LET n == FirstWord(Between(x.text, "'", "'"))
         IN { ~(n = "ib111" \/ StartsWith(n, "ib111.")) }
    [] Is(x, "pylint", "R6607") ->
         LET g == RangeOf(val["set-groups"])
             e == SubSeq(x.text, FindSub(x.text, " in ") + 4, Len(x.text))
         IN IF "enhancement" \in g \/ CountOf(e, "*") > 1 THEN {TRUE}
            ELSE IF g = {} THEN {FALSE} ELSE {TRUE, FALSE}
    [] Is(x, "pylint", "C0325") ->
         { Lower(Unquote(Between(x.text, "Unnecessary parens after ", " "))) # "not" }
    [] Is(x, "pylint", "W0622") ->
         LET d == RangeOf(val["disallowed-builtin-names"])
         IN { d = {} \/ Unquote(After(x.text, "Redefining built-in ")) \in d }
    [] OTHER -> {TRUE}

Text(x) ==
  CASE Is(x, "pylint", "C0104") ->
         LET n == Between(x.text, DisName, "\"")
         IN IF Len(n) = 1
            THEN "Disallowed single-character variable name \"" \o n \o "\", choose a more descriptive name"
            ELSE x.text
    [] Is(x, "flake8", "E712") ->    \* "comparison to True should be 'if cond is True:' or 'if cond:'"
         LET b == FindSub(x.text, "should be ") + 9
             o == FindSub(x.text, "' or ")
         IN SubSeq(x.text, 1, b) \o SubSeq(x.text, o + 5, Len(x.text))
    [] OTHER -> x.text

(* ---- names of files ---- *)
Under(p, d) == p = d \/ StartsWith(p, d \o "/") \/ d = "/"
(* args: Seq([abs, rel]): absolute paths of the arguments, rel: spelled relatively *)
ArgOf(args, p) ==
  LET is == { i \in 1..Len(args) : Under(p, args[i].abs) }
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

RECURSIVE Common(_, _, _)
Common(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ a[n + 1] = b[n + 1] THEN Common(a, b, n + 1) ELSE n
Parts(p) == SelectSeq(Split(p, "/"), LAMBDA s : s # "")
RelPath(p, cwd) ==
  LET a == Parts(p) b == Parts(cwd) n == Common(a, b, 0)
      ups == [ i \in 1..(Len(b) - n) |-> ".." ]
      all == ups \o SubSeq(a, n + 1, Len(a))
  IN IF all = << >> THEN "." ELSE Join(all, "/")
NameOf(args, cwd, p) == IF args[ArgOf(args, p)].rel THEN RelPath(p, cwd) ELSE p

(* ---- order ---- *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == TLCEval([ c \in Chars(Ascii) |-> FirstPos(Ascii, c) ])
RECURSIVE LessFrom(_, _, _)
LessFrom(s, t, i) ==
  IF i > Len(t) THEN FALSE
  ELSE IF i > Len(s) THEN TRUE
  ELSE IF Ch(s, i) = Ch(t, i) THEN LessFrom(s, t, i + 1)
  ELSE Ord[Ch(s, i)] < Ord[Ch(t, i)]
StrLess(s, t) == LessFrom(s, t, 1)

(* may problem y not come before x? *)
Precedes(args, x, y) ==
  LET i == ArgOf(args, x.file) j == ArgOf(args, y.file) IN
  \/ i < j
  \/ i = j /\ \/ StrLess(x.path, y.path)
              \/ x.path = y.path /\ (x.line < y.line \/ (x.line = y.line /\ x.col <= y.col))
Sorted(args, ps) == \A i \in 1..(Len(ps) - 1) : Precedes(args, ps[i], ps[i + 1])

(* ---- the result of a check ---- *)
Fields(x, path) == << x.src, path, x.line, x.col, x.code, x.symbol, Text(x), x.el, x.ec >>
Got(p) == << p.src, p.path, p.line, p.col, p.code, p.symbol, p.text, p.el, p.ec >>
CountIn(q, v) == Cardinality({ i \in 1..Len(q) : q[i] = v })

(* ---- printing ---- *)
Line(p) == p.path \o ":" \o ToString(p.line) \o ":" \o ToString(p.col) \o ": " \o p.code \o " " \o p.text
           \o (IF p.by = "<null>" THEN "" ELSE " [" \o p.by \o "]") \o "\n"
RECURSIVE Printed(_, _, _)
Printed(ps, single, prev) ==
  IF ps = << >> THEN ""
  ELSE LET p == Head(ps) IN
       (IF ~single /\ p.path # prev THEN "****************** " \o BaseName(p.path) \o "\n" ELSE "")
       \o Line(p) \o Printed(Tail(ps), single, p.path)
ExitCode(failed, ps) == IF failed THEN 2 ELSE IF ps = << >> THEN 0 ELSE 1
=============================================================================
