------------------------------ MODULE AntiUnify ------------------------------
(* Generalizations of code fragments.                                           *)
(* term = [t: node, c: class, k: Seq(term)]     [t: list, k: Seq(term)]           *)
(*      | [t: name, s: text]: the name of a variable                             *)
(*      | [t: leaf, s: text]: any other value    [t: hole, id]: only in cores       *)
EXTENDS Sequences, FiniteSets, Integers, TLC

At(fs, i) == [ f \in 1..Len(fs) |-> fs[f].k[i] ]
AllSame(fs) == \A f \in 1..Len(fs) : fs[f] = fs[1]

(* the fragments differ already here: their smallest common part is a hole        *)
Apart(fs) ==
  IF ~ \A f \in 1..Len(fs) : fs[f].t = fs[1].t THEN TRUE
  ELSE CASE fs[1].t = "node" -> ~ \A f \in 1..Len(fs) : fs[f].c = fs[1].c
         [] fs[1].t = "list" -> ~ \A f \in 1..Len(fs) : Len(fs[f].k) = Len(fs[1].k)
         [] OTHER -> ~AllSame(fs)

(* the least general generalization; a hole is identified by where it is           *)
RECURSIVE Core(_, _)
Core(fs, path) ==
  IF Apart(fs) THEN [t |-> "hole", id |-> path]
  ELSE IF fs[1].t \in {"node", "list"}
       THEN [fs[1] EXCEPT !.k = [ i \in 1..Len(fs[1].k) |-> Core(At(fs, i), Append(path, i)) ]]
       ELSE fs[1]

RECURSIVE Holes(_)
Holes(c) == IF c.t = "hole" THEN {c.id} ELSE IF c.t \in {"node", "list"} THEN UNION { Holes(c.k[i]) : i \in 1..Len(c.k) } ELSE {}

(* the core with values for its holes                                            *)
RECURSIVE Fill(_, _)
Fill(c, subs) ==
  IF c.t = "hole" THEN subs[c.id]
  ELSE IF c.t \in {"node", "list"} THEN [c EXCEPT !.k = [ i \in 1..Len(c.k) |-> Fill(c.k[i], subs) ]] ELSE c

RECURSIVE Sub(_, _)
Sub(t, path) == IF path = << >> THEN t ELSE Sub(t.k[Head(path)], Tail(path))

(* What differs between the core with filled holes and the fragments: tuples of     *)
(* names where the core has the name of the first one                             *)
(* << >> if they differ otherwise                                               *)
RECURSIVE Differ(_, _, _)
Differ(c, fs, subs) ==
  IF c.t = "hole" THEN IF c.id # 0 /\ \A f \in 1..Len(fs) : subs[c.id][f] = fs[f] THEN {} ELSE { << >> }
  ELSE IF ~ \A f \in 1..Len(fs) : fs[f].t = c.t THEN { << >> }
  ELSE CASE c.t = "name" -> IF AllSame(fs) /\ c = fs[1] THEN {} ELSE IF c = fs[1] THEN { [ f \in 1..Len(fs) |-> fs[f].s ] } ELSE { << >> }
         [] c.t = "leaf" -> IF \A f \in 1..Len(fs) : fs[f] = c THEN {} ELSE { << >> }
         [] OTHER ->
              IF (c.t = "node" /\ \E f \in 1..Len(fs) : fs[f].c # c.c) \/ (\E f \in 1..Len(fs) : Len(fs[f].k) # Len(c.k)) THEN { << >> }
              ELSE UNION { Differ(c.k[i], At(fs, i), subs) : i \in 1..Len(c.k) }

(* holes where there need not be one                                             *)
RECURSIVE Needless(_, _)
Needless(c, fs) ==
  IF c.t = "hole" THEN IF Apart(fs) THEN {} ELSE {c.id}
  ELSE IF c.t \in {"node", "list"} THEN UNION { Needless(c.k[i], At(fs, i)) : i \in 1..Len(c.k) } ELSE {}

(* the tuples of names at the same places; names in holes (fragment, name)           *)
RECURSIVE NamesOf(_)
NamesOf(t) == IF t.t = "name" THEN {t.s} ELSE IF t.t \in {"node", "list"} THEN UNION { NamesOf(t.k[i]) : i \in 1..Len(t.k) } ELSE {}
RECURSIVE NameTuples(_)
NameTuples(fs) ==
  IF Apart(fs) THEN IF \A f \in 1..Len(fs) : fs[f].t = "name" THEN { [ f \in 1..Len(fs) |-> fs[f].s ] } ELSE {}
  ELSE IF fs[1].t = "name" THEN { [ f \in 1..Len(fs) |-> fs[f].s ] }
  ELSE IF fs[1].t \in {"node", "list"} THEN UNION { NameTuples(At(fs, i)) : i \in 1..Len(fs[1].k) } ELSE {}
RECURSIVE Loose(_)
Loose(fs) ==
  IF Apart(fs) THEN IF \A f \in 1..Len(fs) : fs[f].t = "name" THEN {} ELSE UNION { {f} \X NamesOf(fs[f]) : f \in 1..Len(fs) }
  ELSE IF fs[1].t \in {"node", "list"} THEN UNION { Loose(At(fs, i)) : i \in 1..Len(fs[1].k) } ELSE {}

(* variables may be taken for one another if that is so everywhere                  *)
Everywhere(tuple, fs) ==
  /\ \A o \in NameTuples(fs) : o = tuple \/ \A f \in 1..Len(fs) : o[f] # tuple[f]
  /\ \A f \in 1..Len(fs) : << f, tuple[f] >> \notin Loose(fs)
=============================================================================
