--------------------------- MODULE SuggestMachine ---------------------------
(* Builds small conditions, if statements and sequences of them, one part after   *)
(* another, as programs for EduLint to comment on.  A case is [shape, parts].     *)
(* On the way it checks laws of MiniPy itself (De Morgan, associativity, the       *)
(* meaning of elif).                                                              *)
EXTENDS Suggest, Json, IOUtils

Shape == IOEnv.SHAPE
Size == atoi(IOEnv.SIZE)

V(n) == [k |-> "name", n |-> n]
C(n) == [k |-> "const", v |-> Whole(n)]
F(n, d) == [k |-> "const", v |-> Exact("f", n, d)]
T(b) == [k |-> "const", v |-> Bool(b)]
Nil == [k |-> "const", v |-> None]
Cm(l, op, r) == [k |-> "cmp", l |-> l, ops |-> << op >>, rs |-> << r >>]
Bi(l, op, r) == [k |-> "bin", op |-> op, l |-> l, r |-> r]
Un(op, e) == [k |-> "un", op |-> op, e |-> e]
Bo(op, es) == [k |-> "bool", op |-> op, es |-> es]
Ca(f, es) == [k |-> "call", f |-> f, es |-> es]
In(e, from, to, step, neg) == [k |-> "range", e |-> e, from |-> from, to |-> to, step |-> step, neg |-> neg]
X == V("x")
Y == V("y")
B == V("b")
R == V("r")

Small == <<
  Cm(X, "<", C(0)), Cm(X, ">=", C(0)), Cm(X, ">", C(1)), Cm(X, "==", C(1)), Cm(X, "!=", C(1)),
  Cm(X, "<", Y), Cm(Y, "<=", X), Cm(X, "==", Y), Cm(Bi(X, "%", C(2)), "==", C(0)), B, X >>
Medium == Small \o <<
  Cm(Bi(X, "%", C(2)), "==", C(1)), Cm(Y, "<", C(0)), Un("not", B), Cm(X, "<=", C(0)), Cm(C(0), "<", X), Cm(Y, ">", X),
  Cm(R, "<", F(1, 2)), Cm(R, ">=", C(0)) >>
Big == Medium \o <<
  Cm(X, ">", C(0)), Cm(X, "<", C(2)), Cm(X, ">", C(-2)), Cm(X, ">=", C(2)), Cm(X, "<=", C(-2)), Cm(X, "<=", C(2)), Cm(X, ">=", C(-2)),
  Cm(C(2), ">=", X), Cm(X, "!=", Y), Cm(X, ">=", Bi(Y, "+", C(1))), Cm(Bi(X, "-", Y), ">", C(0)), Cm(Y, ">=", X),
  Cm(Bi(X, "%", C(2)), "!=", C(0)), Cm(Bi(X, "%", C(3)), "==", C(1)), Cm(Bi(X, "%", C(2)), "!=", C(2)), Cm(Bi(Y, "%", C(2)), "==", C(0)),
  Cm(Bi(X, "%", C(-2)), "==", C(0)), Cm(Bi(X, "//", C(2)), ">", C(0)), Cm(Bi(X, "//", C(-2)), "<", C(0)), Cm(Bi(X, "//", C(2)), "!=", C(1)),
  Cm(Ca("abs", << X >>), "<", C(2)), Cm(Ca("abs", << X >>), ">=", C(1)), Cm(Ca("max", << X, Y >>), ">", C(0)), Cm(Ca("min", << X, Y >>), ">", C(1)),
  Cm(R, ">", C(0)), Cm(R, "<", C(1)), Cm(R, "==", X), Cm(Bi(R, "*", C(2)), ">", C(1)), Cm(Bi(X, "/", C(2)), "<", C(1)),
  In(X, C(0), C(3), C(1), FALSE), In(X, C(-2), C(3), C(2), TRUE), Cm(Un("-", X), ">", C(1)), Cm(Bi(X, "*", C(2)), ">=", Y),
  [k |-> "cmp", l |-> C(0), ops |-> << "<", "<" >>, rs |-> << X, Y >>], [k |-> "cmp", l |-> X, ops |-> << ">=", ">=" >>, rs |-> << C(0), Y >>],
  Cm(Bi(X, "**", C(2)), ">", C(1)), Cm(Bi(X, "*", X), ">", C(1)), Un("not", Cm(X, ">", C(1))), Un("not", X), Cm(Bi(X, "-", C(1)), "==", Bi(Y, "-", C(1))),
  Cm(Bi(X, "+", Y), "==", C(0)), R, Y, Bi(X, "%", C(2)), Cm(C(1), "==", X), T(TRUE), Cm(X, "==", Bi(X, "+", C(1))) >>

Conds2 == [ i \in 1..(2 * Len(Small) * Len(Small)) |->
              LET n == Len(Small)  j == (i - 1) \div 2 IN
              Bo(IF i % 2 = 0 THEN "and" ELSE "or", << Small[1 + j \div n], Small[1 + (j % n)] >>) ]
Ops == << [k |-> "op", op |-> "and"], [k |-> "op", op |-> "or"] >>
Yes == << [k |-> "yes"], [k |-> "no"] >>
Tests == << B, Un("not", B), X, Cm(X, "<", C(1)), Cm(X, "==", Y), Bo("and", << B, Cm(X, ">", C(0)) >>), Bo("or", << X, B >>),
            Bo("and", << X, Y >>), Un("not", Bo("or", << B, Cm(Y, "<", X) >>)) >>
Vals == << T(TRUE), T(FALSE), X, B, Cm(Y, ">", C(0)), Bo("or", << B, Cm(X, ">", Y) >>), Bo("and", << B, X >>), C(1), Nil >>
Forms == << [k |-> "form", f |-> "return"], [k |-> "form", f |-> "after"], [k |-> "form", f |-> "assign"],
            [k |-> "form", f |-> "aug"], [k |-> "form", f |-> "ifexp"], [k |-> "form", f |-> "two"] >>
As(n, e) == [k |-> "assign", ns |-> << n >>, es |-> << e >>]
Bodies == << << >>, << As("x", Bi(X, "+", C(1))) >>, << As("x", C(0)) >>, << As("y", X) >>, << As("b", T(FALSE)) >>,
             << As("x", Y), As("y", C(1)) >>, << [k |-> "aug", n |-> "x", op |-> "-", e |-> C(1)] >>,
             << [k |-> "if", c |-> B, body |-> << As("x", C(1)) >>, orelse |-> << >>] >>, << [k |-> "return", e |-> X] >> >>
Bits == [ i \in 1..Len(Bodies) |-> [k |-> "body", body |-> Bodies[i]] ]
Numbers == << X, Y, R, B, C(0), C(1), C(2), C(-1), Bi(X, "+", Y), Bi(X, "-", C(1)), Bi(X, "*", Y), Un("-", X), F(1, 2), F(1, 1), Bi(X, "%", C(2)), Ca("abs", << X >>) >>
Arithmetic == [ i \in 1..7 |-> [k |-> "op", op |-> << "+", "-", "*", "/", "//", "%", "**" >>[i]] ]
Bounds == << C(0), C(1), C(3), C(-2), C(5), Y, Bi(Y, "+", C(2)), Bi(Y, "-", C(1)), Bi(C(2), "*", Y), Un("-", Y), Bo("or", << Y, C(3) >>), Bo("and", << Y, C(2) >>), Cm(Y, ">", C(0)),
             [k |-> "if", c |-> B, a |-> C(0), b |-> Y], Ca("max", << Y, C(1) >>) >>
Steps == << C(1), C(2), C(3), C(-1), C(-2), C(5) >>
Truths == << T(TRUE), T(FALSE), B, X, Cm(X, ">", C(0)), Bo("or", << B, Cm(X, "<", C(0)) >>), Un("not", B),
             [k |-> "if", c |-> B, a |-> B, b |-> T(FALSE)], Bo("and", << B, B >>) >>

(* what may come at each place of a shape *)
Places ==
  CASE Shape = "pair" -> << Ops, Big, Big >>
    [] Shape = "three" -> << Ops, Medium, Medium, Medium >>
    [] Shape = "mixed" -> << Ops, Medium, Medium, Medium >>
    [] Shape = "chain" -> << Yes, Big, Big >>
    [] Shape = "chain3" -> << Yes, Medium, Medium, Medium >>
    [] Shape = "chain2" -> << Yes, Medium, Conds2 >>
    [] Shape = "values" -> << Forms, Tests, Vals, Vals >>
    [] Shape = "nested" -> << Yes, Tests, Tests >>
    [] Shape = "seq" -> << Tests, Tests >>
    [] Shape = "ifs" -> << Medium, Bits, Medium, Bits >>
    [] Shape = "ifs3" -> << Small, Bits, Small, Bits, Small, Bits >>
    [] Shape = "number" -> << Arithmetic, Numbers, Numbers >>
    [] Shape = "range" -> << Yes, Bounds, Bounds, Steps >>
    [] Shape = "is" -> << << [k |-> "op", op |-> "is"], [k |-> "op", op |-> "is not"] >>, Truths, << T(TRUE), T(FALSE) >> >>
    [] Shape = "elses" -> << Tests, Vals >>

VARIABLES parts, key
vars == << parts, key >>
Init == parts = << >> /\ key = 0
(* key numbers the case; only cases whose number is 0 modulo SIZE are completed *)
Next == /\ Len(parts) < Len(Places)
        /\ \E i \in 1..Len(Places[Len(parts) + 1]) :
             /\ key' = (key * 1009 + i * 373 + 5) % 1000003
             /\ Len(parts) + 1 < Len(Places) \/ key' % Size = 0
             /\ parts' = Append(parts, Places[Len(parts) + 1][i])
Spec == Init /\ [][Next]_vars
Complete == Len(parts) = Len(Places)

Doms == [ x |-> {Whole(-1), Whole(0), Whole(2)}, y |-> {Whole(-2), Whole(1)}, b |-> {Bool(TRUE), Bool(FALSE)}, r |-> {Exact("f", 1, 2)} ]
Sample == { [x |-> x, y |-> y, b |-> b, r |-> r] : x \in Doms.x, y \in Doms.y, b \in Doms.b, r \in Doms.r }
(* laws *)
Evaluated(e) == e.k \notin {"op", "yes", "no", "form", "body"}
DeMorgan ==
  Complete /\ Shape \in {"pair", "three"} =>
    LET es == Tail(parts)
        dual == IF parts[1].op = "and" THEN "or" ELSE "and" IN
    \A env \in Sample :
      Eval(Un("not", Bo(parts[1].op, es)), env) = Eval(Bo(dual, [ i \in 1..Len(es) |-> Un("not", es[i]) ]), env)
Associative ==
  Complete /\ Shape = "three" =>
    \A env \in Sample :
      Eval(Bo(parts[1].op, << parts[2], Bo(parts[1].op, << parts[3], parts[4] >>) >>), env) = Eval(Bo(parts[1].op, Tail(parts)), env)
Divides ==   \* a = (a // b) * b + a % b
  Complete /\ Shape = "number" =>
    \A env \in Sample :
      LET a == Eval(parts[2], env)  b == Eval(parts[3], env) IN
      ~Bad(a) /\ ~Bad(b) /\ b.n # 0 =>
        /\ Same(Arith("+", Arith("*", Arith("//", a, b), b), Arith("%", a, b)), a)
        /\ Same(Arith("-", Arith("+", a, b), b), a)
        /\ Same(Arith("*", Arith("/", a, b), b), a)
(* elif means else: if *)
Elifs ==
  Complete /\ Shape \in {"chain", "chain3"} =>
    LET tests == Tail(parts)
        Block(k) == << [k |-> "mark", m |-> ToString(k)] >>
        ifs == [ k \in 1..Len(tests) |-> [k |-> "if", c |-> tests[k], body |-> Block(k), orelse |-> << >>] ] IN
    \A env \in Sample :
      LET s == Exec1(AsElifs(ifs), State(env))  b == Branch(tests, 1, env) IN
      b # 0 => s.tr = IF b > Len(tests) THEN << >> ELSE << ToString(b) >>
Emit == Complete => PrintT("CASE " \o ToJson([shape |-> Shape, parts |-> parts]))
=============================================================================
