------------------------------ MODULE Suppress ------------------------------
(* In-file suppressions of linters: which lines carry them, where.          *)
EXTENDS Str

Blank(c) == c \in {" ", "\t"}
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Blank(Ch(s, i)) THEN SkipBlank(s, i + 1) ELSE i
At(s, i, w) == i + Len(w) - 1 <= Len(s) /\ Lower(SubSeq(s, i, i + Len(w) - 1)) = w

(* suppression directives starting right after the # at position i *)
NoqaAt(s, i) ==
  LET j == SkipBlank(s, i + 1) IN
  \/ At(s, j, "noqa")
  \/ At(s, j, "flake8:") /\ LET k == SkipBlank(s, j + 7) IN At(s, k, "noqa")
PylintAt(s, i) ==
  LET j == SkipBlank(s, i + 1) IN
  /\ At(s, j, "pylint:")
  /\ LET k == SkipBlank(s, j + 7) IN At(s, k, "disable") \/ At(s, k, "enable")

Hashes(s) == { i \in 1..Len(s) : Ch(s, i) = "#" }
IbImport(s) == Contains(Lower(s), "from ib111 import")

(* does the line suppress messages of linter l? *)
Suppresses(s, l) ==
  CASE l = "flake8" -> ~IbImport(s) /\ \E i \in Hashes(s) : NoqaAt(s, i)
    [] l = "pylint" -> \E i \in Hashes(s) : PylintAt(s, i)
    [] OTHER -> FALSE

LintersOf(v) == IF "all" \in v THEN {"edulint", "pylint", "flake8"} ELSE v
(* the lines to report when in-file configuration for v is not allowed *)
Reported(lines, v) == { i \in 1..Len(lines) : \E l \in LintersOf(v) : Suppresses(lines[i], l) }
=============================================================================
