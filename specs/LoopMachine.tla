---------------------------- MODULE LoopMachine ----------------------------
(* Builds small functions with loops, one part after another, for EduLint to       *)
(* comment on, and checks laws of MiniPy's loops on them.                          *)
EXTENDS Loops, Json, IOUtils

Shape == IOEnv.SHAPE
Size == atoi(IOEnv.SIZE)

C(n) == [k |-> "const", v |-> Whole(n)]
T(b) == [k |-> "const", v |-> Bool(b)]
Cm(l, op, r) == [k |-> "cmp", l |-> l, ops |-> << op >>, rs |-> << r >>]
Bi(l, op, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
Un(op, e) == [k |-> "un", op |-> op, e |-> e]
Bo(op, es) == [k |-> "bool", op |-> op, es |-> es]
Ca(f, es) == [k |-> "call", f |-> f, es |-> es]
Sb(l, i) == [k |-> "sub", l |-> l, i |-> i]
I == Name("i")
J == Name("j")
X == Name("x")
N == Name("n")
L == Name("l")
M == Name("m")

As(n, e) == [k |-> "assign", at |-> 0, ns |-> << n >>, es |-> << e >>]
Ag(n, op, e) == [k |-> "aug", at |-> 0, n |-> n, op |-> op, e |-> e]
Pr(e) == [k |-> "print", at |-> 0, e |-> e]
Jump(j) == [k |-> "jump", at |-> 0, j |-> j]
If(c, body) == [k |-> "if", at |-> 0, c |-> c, body |-> body, orelse |-> << >>]
IfElse(c, body, orelse) == [k |-> "if", at |-> 0, c |-> c, body |-> body, orelse |-> orelse]
For_(n, over, body) == [k |-> "for", at |-> 0, over |-> over, n |-> n, body |-> body, orelse |-> << >>]
Rng(a, b, s) == [k |-> "range", from |-> a, to |-> b, step |-> s]
Lst(l) == [k |-> "list", e |-> l]
While_(c, body) == [k |-> "while", at |-> 0, c |-> c, body |-> body, orelse |-> << >>]
Do(l, m, es) == [k |-> "do", at |-> 0, m |-> m, l |-> l, es |-> es]
Set(l, i, e) == [k |-> "setitem", at |-> 0, l |-> l, i |-> i, e |-> e]
Del(l, i) == [k |-> "delitem", at |-> 0, l |-> l, i |-> i]
New_(n, parts) == [k |-> "new", at |-> 0, n |-> n, parts |-> parts]
Elem(e) == [k |-> "elem", e |-> e]
Copy(e) == [k |-> "all", e |-> e]
Ret(e) == [k |-> "return", at |-> 0, e |-> e]
Nothing == [k |-> "pass", at |-> 0]
Twice(s) == For_("j", Rng(C(0), C(2), C(1)), << s >>)

Conds == << Cm(X, "<", N), Cm(X, "<=", C(2)), Cm(N, ">", X), Cm(X, ">", C(0)), Cm(X, ">=", N), Cm(X, "==", C(1)), Cm(Bi(X, "+", C(1)), "<", N),
            Bo("and", << Cm(X, "<", C(3)), Cm(N, ">", C(0)) >>), Cm(Ca("len", << L >>), ">", X), Cm(X, "!=", N), Cm(Bi(X, "%", C(2)), "==", C(0)) >>
Changes == << Ag("x", "+", C(1)), Ag("x", "-", C(1)), As("x", Bi(X, "+", C(1))), As("x", Bi(C(1), "+", X)), As("x", Bi(C(1), "-", X)), Ag("x", "+", C(2)),
              As("x", Bi(X, "-", C(1))), Ag("x", "*", C(2)), As("x", C(0)), As("x", N), As("x", Bi(N, "+", C(1))), Ag("n", "-", C(1)), Ag("n", "+", C(1)) >>
Steps == << Nothing, Pr(X), If(Cm(X, "==", C(1)), << Jump("continue") >>), If(Cm(X, "==", C(1)), << Jump("break") >>), If(Cm(N, "==", C(2)), << Ret(X) >>) >>
         \o Changes
         \o << If(Cm(X, "<", C(1)), << Ag("x", "+", C(1)) >>), IfElse(Cm(X, "<", C(1)), << Ag("x", "+", C(1)) >>, << Ag("x", "+", C(1)) >>),
               IfElse(Cm(X, "<", C(1)), << Ag("x", "+", C(1)) >>, << Pr(N) >>), If(Cm(X, "==", C(0)), << Ag("x", "+", C(1)), Jump("continue") >>),
               Twice(Ag("x", "+", C(1))), Twice(Pr(N)), Do(L, "append", << X >>), Do(L, "pop", << >>), Twice(Jump("break")) >>
Ends_ == << Nothing, Pr(X), Ret(X) >>

TrueConds == << Cm(X, ">", C(2)), Cm(X, "==", N), Cm(N, "<", X) >>
TrueElse == << << >>, << Ag("x", "+", C(1)) >>, << Pr(X) >>, << Jump("break") >> >>
Bounds == << C(0), C(1), C(2), C(3), C(5), C(-1), N, X, Bi(N, "+", C(1)), Bi(N, "-", C(1)) >>
StepVals == << C(1), C(2), C(-1), C(-2), X >>
Tights == << X, N, C(0), C(1), C(2), C(4), Bi(N, "-", C(1)), Bi(N, "-", C(2)), Bi(N, "+", C(1)), Bi(X, "-", C(1)), Bi(N, "-", X) >>
Jumps == << << Jump("continue") >>, << Jump("break") >>, << Pr(N), Jump("continue") >> >>
TightSteps == << Pr(I), Ag("x", "+", C(1)), Ag("n", "+", C(1)), Do(L, "append", << I >>), If(Cm(I, "==", C(2)), << Jump("break") >>) >>
Changers == << Do(L, "append", << I >>), Do(L, "pop", << >>), Do(L, "remove", << I >>), Do(L, "clear", << >>), Del(L, C(0)), New_("l", << Elem(I) >>), New_("l", << Copy(L) >>),
               New_("l", << Copy(L), Elem(C(1)) >>), Do(M, "append", << I >>), Pr(I), As("m", L), As("l", M), Jump("break"),
               If(Cm(I, ">", C(1)), << Do(L, "append", << I >>) >>), If(Cm(I, ">", C(1)), << Do(L, "append", << I >>), Jump("break") >>),
               If(Cm(I, ">", C(1)), << New_("l", << >>) >>), Twice(Do(L, "pop", << >>)), For_("j", Rng(C(0), C(2), C(1)), << Do(L, "append", << I >>), Jump("break") >>),
               For_("j", Lst(M), << Do(L, "append", << J >>) >>), IfElse(Cm(I, ">", C(1)), << Do(L, "insert", << C(0), I >>) >>, << Jump("break") >>) >>
Control == << Pr(I), Ag("i", "+", C(1)), As("i", C(0)), As("i", Bi(X, "+", I)), As("x", I), Pr(X), If(Cm(I, "==", C(1)), << As("i", C(5)) >>), If(Cm(I, ">", C(1)), << Jump("continue") >>),
              If(Cm(I, ">", C(1)), << Jump("break") >>), For_("i", Rng(C(0), C(2), C(1)), << Pr(I) >>), For_("i", Rng(C(0), C(2), C(1)), << Nothing >>), Twice(Ag("i", "+", C(1))), Twice(Pr(I)) >>
Elements == << Pr(Sb(L, I)), Ag("x", "+", Sb(L, I)), Pr(I), Set(L, I, C(0)), Set(L, I, Bi(Sb(L, I), "+", C(1))), Pr(Sb(M, I)), Pr(Sb(L, Bi(I, "-", C(1)))), Pr(Sb(L, C(0))), Set(M, I, Sb(L, I)),
               Do(L, "append", << I >>), New_("l", << Elem(Sb(L, I)) >>), As("l", M), Ag("i", "+", C(1)), As("x", I), Do(L, "pop", << >>), Del(L, C(0)), Set(L, C(0), C(7)),
               If(Cm(Sb(L, I), ">", C(1)), << Jump("break") >>), If(Cm(Sb(L, I), ">", C(1)), << Do(L, "append", << I >>), Jump("break") >>),
               For_("j", Rng(C(0), C(2), C(1)), << Do(L, "append", << J >>), Jump("break") >>), Twice(Pr(Sb(L, I))), Twice(Pr(Sb(L, J))),
               For_("i", Rng(C(0), C(1), C(1)), << Pr(I) >>), If(Cm(I, "==", C(1)), << Ret(Sb(L, I)) >>), As("m", L), Do(M, "append", << C(1) >>), Pr(Ca("len", << L >>)),
               If(Cm(Sb(L, I), "==", C(1)), << Ret(I) >>) >>
Afters == << Nothing, Pr(I), Pr(X), Pr(Sb(L, C(0))), Ret(I) >>

Places ==
  CASE Shape = "true" -> << TrueConds, TrueElse, Steps, Steps, Ends_ >>
    [] Shape = "tight" -> << Bounds, Bounds, StepVals, Tights, Jumps, TightSteps >>
    [] Shape = "modify" -> << Changers, Changers, Changers >>
    [] Shape = "control" -> << Control, Control, Control, Afters >>
    [] Shape = "usefor" -> << Conds, Steps, Steps, Ends_ >>
    [] Shape = "usefor3" -> << Conds, Steps, Steps, Steps, Ends_ >>
    [] Shape = "foreach" -> << Elements, Elements, Afters >>
    [] Shape = "foreach3" -> << Elements, Elements, Elements, Afters >>
    [] Shape = "infinite" -> << Conds, Changes, Steps >>
    [] Shape = "once" -> << Bounds, Bounds, StepVals >>
Block(p) ==
  CASE Shape = "true" -> << While_(T(TRUE), << IfElse(p[1], << Jump("break") >>, p[2]), p[3], p[4] >>), p[5] >>
    [] Shape = "tight" -> << For_("i", Rng(p[1], p[2], p[3]), << If(Cm(I, "==", p[4]), p[5]), p[6] >>), Pr(X) >>
    [] Shape = "modify" -> << For_("i", Lst(L), p) >>
    [] Shape = "control" -> << As("i", C(0)), For_("i", Rng(C(0), N, C(1)), SubSeq(p, 1, 3)), p[4] >>
    [] Shape \in {"usefor", "usefor3"} -> << While_(p[1], SubSeq(p, 2, Len(p) - 1)), p[Len(p)] >>
    [] Shape \in {"foreach", "foreach3"} -> << For_("i", Rng(C(0), Ca("len", << L >>), C(1)), SubSeq(p, 1, Len(p) - 1)), p[Len(p)] >>
    [] Shape = "infinite" -> << While_(p[1], SubSeq(p, 2, 3)) >>
    [] Shape = "once" -> << For_("i", Rng(p[1], p[2], p[3]), << Pr(I) >>) >>

VARIABLES parts, key
vars == << parts, key >>
Init == parts = << >> /\ key = 0
Next == /\ Len(parts) < Len(Places)
        /\ \E i \in 1..Len(Places[Len(parts) + 1]) :
             /\ key' = (key * 1009 + i * 373 + 5) % 1000003
             /\ Len(parts) + 1 < Len(Places) \/ key' % Size = 0
             /\ parts' = Append(parts, Places[Len(parts) + 1][i])
Spec == Init /\ [][Next]_vars
Complete == Len(parts) = Len(Places)

(* ---- laws, on a few environments ---- *)
Sample == { [ n \in {"x", "n", "l", "m", "@"} |->
                CASE n = "x" -> Whole(x) [] n = "n" -> Whole(m) [] n = "l" -> Num("l", 1, 1) [] n = "m" -> Num("l", 2, 1)
                  [] n = "@" -> << << Whole(2), Whole(0) >>, << Whole(1) >> >> ] : x \in {0, 1}, m \in {0, 2} }
Inner(block) == SubSeq(block, 1, Len(block) - 1)
(* executing twice as long does not change an end; what is printed only grows; loops are entered before they are left *)
Steady ==
  Complete => \A env \in Sample :
    \E a \in { Run(Block(parts), env, 6) } : \E b \in { Run(Block(parts), env, 12) } :
      /\ a.out # "fuel" => [b EXCEPT !.fuel = 0] = [a EXCEPT !.fuel = 0]
      /\ Len(a.tr) <= Len(b.tr) /\ SubSeq(b.tr, 1, Len(a.tr)) = a.tr
      /\ \A k \in 1..Len(a.log) : a.log[k].what = "leave" => \E j \in 1..(k - 1) : a.log[j].what = "enter" /\ a.log[j].at = a.log[k].at
(* while c: B is if c: B; while c: B, when B neither breaks nor continues *)
Unrolled ==
  Complete /\ Shape \in {"usefor", "infinite"} =>
    LET w == Block(parts)[1] IN
    (\A i \in 1..Len(All(w.body)) : All(w.body)[i].k # "jump") =>
      \A env \in Sample :
        \E a \in { Run(<< w >>, env, 8) } : \E b \in { Run(<< If(w.c, w.body \o << w >>) >>, env, 8) } :
          a.out = "fuel" \/ b.out = "fuel" \/ (a.out = b.out /\ a.tr = b.tr /\ a.env = b.env)
Emit == Complete => PrintT("CASE " \o ToJson([shape |-> Shape, block |-> Block(parts)]))
=============================================================================
