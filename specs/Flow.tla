-------------------------------- MODULE Flow --------------------------------
(* How control flows through statements of Python.                            *)
(*                                                                            *)
(* nodes: Seq of statements, each [k: kind, a: atom, ...].  Atoms are the      *)
(* parts of statements that are executed one after another (1..n); raises[a]   *)
(* says whether an exception may leave the atom.  Statements:                  *)
(*   simple return break continue   a                                          *)
(*   raise       a, exc: the name of the exception, if known                   *)
(*   if, while   a (the condition), body, orelse, c ("?", "T" or "F")          *)
(*   for         a (the iterable), b (the target: asks for the next item)      *)
(*   with        as (atoms of contexts and targets), body                      *)
(*   try         body, hs: Seq([a: target atom or 0, body, all, names]),       *)
(*               orelse, final; names: the classes it handles                  *)
(*   match       a (the subject), cases: Seq([a: pattern, g: guard or 0, body, *)
(*               irr])                                                        *)
(* Conditions and raised exceptions are not interpreted: anything may happen,  *)
(* except for conditions that are constants.                                   *)
(* A program point is [k, n, i]: statement n was executed up to its i-th part. *)
(* A continuation is a stack (first is the innermost) of frames:               *)
(*   [t |-> "seq", l |-> statements to go]    [t |-> "loop", n]                *)
(*   [t |-> "try", n, ph |-> "body", "else" or "handler"]                      *)
(*   [t |-> "fin", p |-> what to do after the finally block]                   *)
(* A step is [a, pt, K]: atom a is executed, which leads to point pt with      *)
(* continuation K.  Atom 0 is the end.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

End == 0
Pt(k, n, i) == [k |-> k, n |-> n, i |-> i]
Step(a, pt, K) == [a |-> a, pt |-> pt, K |-> K]
EndStep == Step(End, Pt("end", 0, 0), << >>)
SeqFrame(l) == [t |-> "seq", l |-> l]
Push(f, K) == << f >> \o K
PushSeq(l, K) == IF l = << >> THEN K ELSE Push(SeqFrame(l), K)
Pop(K) == Tail(K)

(* only the first irrefutable case and those before it may be chosen           *)
CaseMay(cs, i, j) == j > i /\ \A h \in 1..(j - 1) : ~cs[h].irr

RECURSIVE Go(_, _), Start(_, _, _), Unwind(_, _, _)

(* the request for the next item or the test of the condition                  *)
Header(N, n, K) ==
  IF N[n].k = "while" THEN { Step(N[n].a, Pt("test", n, 0), K) } ELSE { Step(N[n].b, Pt("item", n, 0), K) }

Finally(N, n, K, p) ==
  IF N[n].final # << >> THEN Go(N, Push(SeqFrame(N[n].final), Push([t |-> "fin", p |-> p], K)))
  ELSE IF p = "normal" THEN Go(N, K) ELSE Unwind(N, p, K)

Handler(N, n, i, K) ==
  LET h == N[n].hs[i]
      K1 == Push(SeqFrame(h.body), Push([t |-> "try", n |-> n, ph |-> "handler"], K))
  IN IF h.a = 0 THEN Go(N, K1) ELSE { Step(h.a, Pt("go", n, 0), K1) }

(* execution goes on normally with K                                           *)
Go(N, K) ==
  IF K = << >> THEN { EndStep }
  ELSE LET f == K[1] IN
  CASE f.t = "seq" -> IF f.l = << >> THEN Go(N, Pop(K)) ELSE Start(N, f.l[1], PushSeq(Tail(f.l), Pop(K)))
    [] f.t = "loop" -> Header(N, f.n, Pop(K))
    [] f.t = "try" -> IF f.ph = "body" /\ N[f.n].orelse # << >>
                      THEN Go(N, Push(SeqFrame(N[f.n].orelse), Push([f EXCEPT !.ph = "else"], Pop(K))))
                      ELSE Finally(N, f.n, Pop(K), "normal")
    [] f.t = "fin" -> IF f.p = "normal" THEN Go(N, Pop(K)) ELSE Unwind(N, f.p, Pop(K))

(* p: return, break, continue, raise (an exception) or "throw X" (by a raise    *)
(* statement, whose function ends; other exceptions leave the graph)            *)
Jumps == {"return", "break", "continue"}
(* a handler surely handles what was thrown under the same name                 *)
Handles(h, p) == h.all \/ \E i \in 1..Len(h.names) : p = "throw " \o h.names[i]
Unwind(N, p, K) ==
  IF K = << >> THEN (IF p \notin {"break", "continue", "raise"} THEN { EndStep } ELSE {})
  ELSE LET f == K[1] IN
  CASE f.t = "loop" /\ p = "break" -> Go(N, Pop(K))
    [] f.t = "loop" /\ p = "continue" -> Header(N, f.n, Pop(K))
    [] f.t = "try" /\ f.ph = "body" /\ p \notin Jumps ->
         LET hs == N[f.n].hs IN
         UNION { Handler(N, f.n, i, Pop(K)) : i \in { j \in 1..Len(hs) : \A h \in 1..(j - 1) : ~Handles(hs[h], p) } }
         \cup (IF \E i \in 1..Len(hs) : Handles(hs[i], p) THEN {} ELSE Finally(N, f.n, Pop(K), p))
    [] f.t = "try" /\ ~(f.ph = "body" /\ p \notin Jumps) -> Finally(N, f.n, Pop(K), p)
    [] f.t \in {"seq", "fin"} \/ (f.t = "loop" /\ p \notin {"break", "continue"}) -> Unwind(N, p, Pop(K))

Start(N, n, K) ==
  LET s == N[n] IN
  CASE s.k \in {"simple", "return", "raise", "break", "continue"} -> { Step(s.a, Pt(s.k, n, 0), K) }
    [] s.k = "if" -> { Step(s.a, Pt("test", n, 0), K) }
    [] s.k = "while" -> Header(N, n, K)
    [] s.k = "for" -> { Step(s.a, Pt("iter", n, 0), K) }
    [] s.k = "with" -> { Step(s.as[1], Pt("with", n, 1), K) }
    [] s.k = "try" -> Go(N, Push(SeqFrame(s.body), Push([t |-> "try", n |-> n, ph |-> "body"], K)))
    [] s.k = "match" -> { Step(s.a, Pt("cases", n, 0), K) }

(* the next cases tried after the i-th did not match                           *)
Cases(N, n, i, K) ==
  LET cs == N[n].cases IN
  { Step(cs[j].a, Pt("matched", n, j), K) : j \in { x \in 1..Len(cs) : CaseMay(cs, i, x) } }
  \cup (IF \E j \in 1..Len(cs) : cs[j].irr THEN {} ELSE Go(N, K))

(* what may be executed right after point pt, unless it raised                 *)
Onwards(N, pt, K) ==
  IF pt.k = "start" THEN Go(N, K) ELSE
  LET s == N[pt.n] IN
  CASE pt.k \in {"go", "simple"} -> Go(N, K)
    [] pt.k \in {"return", "break", "continue"} -> Unwind(N, pt.k, K)
    [] pt.k = "raise" -> Unwind(N, "throw " \o s.exc, K)
    [] pt.k = "test" ->
         (IF s.c = "F" THEN {} ELSE Go(N, PushSeq(s.body, IF s.k = "while" THEN Push([t |-> "loop", n |-> pt.n], K) ELSE K)))
         \cup (IF s.c = "T" THEN {} ELSE Go(N, PushSeq(s.orelse, K)))
    [] pt.k = "iter" -> Header(N, pt.n, K)
    [] pt.k = "item" -> Go(N, PushSeq(s.body, Push([t |-> "loop", n |-> pt.n], K))) \cup Go(N, PushSeq(s.orelse, K))
    [] pt.k = "with" -> IF pt.i < Len(s.as) THEN { Step(s.as[pt.i + 1], Pt("with", pt.n, pt.i + 1), K) }
                        ELSE Go(N, PushSeq(s.body, K))
    [] pt.k = "cases" -> Cases(N, pt.n, 0, K)
    [] pt.k = "matched" -> IF s.cases[pt.i].g = 0 THEN Go(N, PushSeq(s.cases[pt.i].body, K))
                           ELSE { Step(s.cases[pt.i].g, Pt("guard", pt.n, pt.i), K) }
    [] pt.k = "guard" -> Go(N, PushSeq(s.cases[pt.i].body, K)) \cup Cases(N, pt.n, pt.i, K)
    [] pt.k = "end" -> {}

Raised(N, K) == Unwind(N, "raise", K)
(* pt was reached by executing atom a                                          *)
Next1(N, raises, a, pt, K) == Onwards(N, pt, K) \cup (IF a > 0 /\ raises[a] THEN Raised(N, K) ELSE {})
=============================================================================
