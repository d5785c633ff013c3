------------------------------ MODULE Positions ------------------------------
(* Texts of files and positions in them.                                      *)
(* A file is a sequence of lines; lens[i] is the length of line i in columns  *)
(* (the larger of characters and UTF-8 bytes: Python's syntax errors count    *)
(* bytes).  Lines are counted from 1; linters disagree whether columns start  *)
(* at 0 or 1, so a column may be one more than the length; Flake8 places       *)
(* syntax errors (E999, E902) one further still.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* The tokenizer's messages stand where the text ends: one line further.      *)
InLines(lens, l) == l \in 1..Len(lens)
InColumns(lens, l, c, slack) == c \in 0..(lens[l] + slack)
Slack(p) == IF p.code \in {"E999", "E902"} THEN 2 ELSE 1
(* -1 stands for a missing end *)
Has(x) == x # -1

PositionOK(lens, p) ==
  /\ InLines(lens, p.line)
  /\ InColumns(lens, p.line, p.col, Slack(p))

EndOK(lens, p) ==
  Has(p.el) =>
    /\ InLines(lens, p.el)
    /\ p.el >= p.line
    /\ Has(p.ec) => InColumns(lens, p.el, p.ec, Slack(p))
    /\ (p.el = p.line /\ Has(p.ec)) => p.ec >= p.col

(* A checker of EduLint's crashed if Pylint gave up on the file, although     *)
(* it does not without EduLint's checkers.                                    *)
Crashed(r) == r.gaveup /\ ~r.plain
==============================================================================
