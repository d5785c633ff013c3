------------------------------ MODULE Suggest ------------------------------
(* What EduLint's suggestions about conditions and if statements promise.       *)
(* A suggestion is a record r: code, what it was reported on and what it says    *)
(* (see Holds for the fields of each); vars: Seq([n, dom: Seq(value)]) are the    *)
(* variables with the values they are tried with.                               *)
EXTENDS MiniPy

RECURSIVE EnvsFrom(_, _)
EnvsFrom(vars, i) ==
  IF i > Len(vars) THEN { [ n \in {} |-> None ] }
  ELSE { (vars[i].n :> vars[i].dom[j]) @@ g : j \in 1..Len(vars[i].dom), g \in EnvsFrom(vars, i + 1) }
(* lists are given as [t: "L", es] and put on the heap *)
Listed(env, names) == SelectSeq(names, LAMBDA n : env[n].t = "L")
Settle(env, names) ==
  LET ls == TLCEval(Listed(env, names)) IN
  IF ls = << >> THEN env
  ELSE TLCEval([ n \in DOMAIN env \cup {"@"} |->
         IF n = "@" THEN [ i \in 1..Len(ls) |-> env[ls[i]].es ]
         ELSE IF env[n].t = "L" THEN Num("l", CHOOSE i \in 1..Len(ls) : ls[i] = n, 1) ELSE env[n] ])
Envs(r) ==
  LET names == TLCEval([ i \in 1..Len(r.vars) |-> r.vars[i].n ]) IN
  { Settle(env, names) : env \in EnvsFrom(r.vars, 1) }
ShowEnv(env) == [ n \in DOMAIN env \ {"@"} |->
  IF env[n].t = "l" THEN [ i \in 1..Len(env["@"][env[n].n]) |-> env["@"][env[n].n][i].n ] ELSE << env[n].t, env[n].n, env[n].d >> ]

(* what Python computed, as recorded: p is [k: "expr", e, env, want] or            *)
(* [k: "block", block, env, fuel, want]                                         *)
EnvOf(pairs) ==
  Settle(TLCEval([ n \in { pairs[i].n : i \in 1..Len(pairs) } |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i].n = n].v ]),
         TLCEval([ i \in 1..Len(pairs) |-> pairs[i].n ]))
Matches(v, want, env) == IF want.t = "L" THEN v.t = "l" /\ env["@"][v.n] = want.es ELSE v = want
PyWrong(p) ==
  IF p.k = "expr" THEN \E v \in { Eval(p.e, EnvOf(p.env)) } : v.t # "u" /\ p.want.t # "u" /\ ~Matches(v, p.want, EnvOf(p.env))
  ELSE \E s \in { Exec(p.block, [State(EnvOf(p.env)) EXCEPT !.fuel = p.fuel]) } :
       s.out # "u" /\ p.want.out # "u" /\
       (s.out # p.want.out \/ s.tr # p.want.tr
        \/ (s.out = "return" /\ ~Matches(s.val, p.want.val, s.env))
        \/ (s.out = "next" /\ \E i \in 1..Len(p.want.env) :
              p.want.env[i].v.t # "u" /\ ~Matches(s.env[p.want.env[i].n], p.want.env[i].v, s.env)))

(* ---- verdicts: "ok", "bad", "skip" (nothing is promised for this environment) ---- *)
Verdict(b) == IF b THEN "ok" ELSE "bad"
(* a and b are the values before and after; nothing is promised where the original fails *)
Agree(a, b, exact) ==
  IF Bad(a) \/ b.t = "u" \/ (~exact /\ "l" \in {a.t, b.t}) THEN "skip"
  ELSE Verdict(b.t # "e" /\ (IF exact THEN a = b ELSE Truth(a) = Truth(b)))
Alike(a, b) ==   \* the same number, of whatever type
  IF Bad(a) \/ Bad(b) THEN "skip" ELSE Verdict(Same(a, b))
Together(vs) == IF "bad" \in vs THEN "bad" ELSE IF "ok" \in vs THEN "ok" ELSE "skip"

(* a part of a condition: when the whole is a conjunction it implies the part, ... *)
PartOf(e, part, env) ==
  LET w == TLCEval(Eval(e, env))  p == TLCEval(Eval(part, env)) IN
  IF Bad(w) \/ Bad(p) \/ e.k # "bool" THEN "skip"
  ELSE Verdict(IF e.op = "and" THEN TruthIn(w, env) => TruthIn(p, env) ELSE TruthIn(p, env) => TruthIn(w, env))

(* the first branch taken by if tests[1] ... elif tests[n] else: 0 stands for a failure, n + 1 for else *)
RECURSIVE Branch(_, _, _)
Branch(tests, k, env) ==
  IF k > Len(tests) THEN k
  ELSE LET v == TLCEval(Eval(tests[k], env)) IN
       IF Bad(v) THEN 0 ELSE IF TruthIn(v, env) THEN k ELSE Branch(tests, k + 1, env)
(* is the k-th test evaluated? *)
Reached(tests, k, env) == \A j \in 1..(k - 1) : LET v == TLCEval(Eval(tests[j], env)) IN ~Bad(v) /\ ~TruthIn(v, env)

(* the end states of two blocks; loose: the value returned, or assigned to the name, counts by its truth *)
SameEnd(a, b, loose, name) ==
  IF a.out \in {"u", "raise"} \/ b.out = "u" THEN "skip"
  ELSE IF b.out = "raise" THEN "bad"
  ELSE Verdict(
    /\ a.out = b.out /\ a.tr = b.tr
    /\ IF loose THEN TruthIn(a.val, a.env) = TruthIn(b.val, b.env) ELSE a.val = b.val
    /\ DOMAIN a.env = DOMAIN b.env
    /\ \A n \in DOMAIN a.env :
         IF loose /\ n = name THEN TruthIn(a.env[n], a.env) = TruthIn(b.env[n], b.env) ELSE a.env[n] = b.env[n])

(* if s is the last of the ifs turned into elifs of the one before *)
RECURSIVE Extend(_, _), AsElifs(_)
Extend(s, next) ==   \* next becomes the elif at the end of s
  IF s.orelse = << >> THEN [s EXCEPT !.orelse = << next >>]
  ELSE [s EXCEPT !.orelse = << Extend(s.orelse[1], next) >>]
AsElifs(ifs) == IF Len(ifs) = 1 THEN ifs[1] ELSE AsElifs(<< Extend(ifs[1], ifs[2]) >> \o SubSeq(ifs, 3, Len(ifs)))

RECURSIVE Leaves(_, _)
Leaves(e, op) == IF e.k = "bin" /\ e.op = op THEN Leaves(e.l, op) \cup Leaves(e.r, op) ELSE {e}

IfExp == {"R6204", "R6209"}
Group == {"R6211", "R6212", "R6213", "R6214", "R6215"}
Blocks == {"R6201", "R6202", "R6203", "R6210", "R6205", "R6207", "R6208", "R6609"}
Never == {"R6217", "R6221", "R6612"}
Always == {"R6218", "R6611"}
Static == {"R6206", "R6607", "R6608"}

Holds(r, env) ==
  CASE r.code \in IfExp ->   \* e: the expression, new: the suggestion
         Agree(Eval(r.e, env), Eval(r.new, env), Eval(r.e.c, env).t = "b")
    [] r.code \in Group ->   \* old, new; e: the whole condition
         Together({ Agree(Eval(r.old, env), Eval(r.new, env), TRUE), PartOf(r.e, r.old, env) })
    [] r.code = "R6216" ->   \* boolean: only the truth of e matters where it stands
         Together({ Agree(Eval(r.e, env), Eval(r.new, env), ~r.boolean),
                    Agree(Eval(r.e, env), Eval(r.old, env), TRUE) })
    [] r.code = "R6222" ->   \* e is always r.want
         LET v == TLCEval(Eval(r.e, env)) IN IF Bad(v) THEN "skip" ELSE Verdict(TruthIn(v, env) = r.want)
    [] r.code = "R6613" ->   \* val is True: old, new, val
         IF Eval(r.val, env).t # "b" THEN "skip"
         ELSE Together({ Agree(Eval(r.old, env), Eval(r.new, env), TRUE) })
    [] r.code \in {"R6617", "R6618", "R6619"} ->
         Together({ Agree(Eval(r.e, env), Eval(r.new, env), TRUE), Agree(Eval(r.e, env), Eval(r.old, env), TRUE) })
    [] r.code = "R6614" -> Alike(Eval(r.e, env), Eval(r.new, env))
    [] r.code = "R6615" -> Agree(Eval(r.e, env), Eval(r.new, env), TRUE)
    [] r.code \in Blocks ->   \* block, repl; test: the condition that becomes a value; name: assigned
         LET loose == r.loose /\ Eval(r.test, env).t # "b" IN
         SameEnd(Exec(r.block, State(env)), Exec(r.repl, State(env)), loose, r.name)
    [] r.code \in {"R6223", "R6224"} ->   \* block: the ifs
         SameEnd(Exec(r.block, State(env)), Exec(<< AsElifs(r.block) >>, State(env)), FALSE, "")
    [] r.code \in Never ->   \* tests, at: the number of the branch
         LET b == TLCEval(Branch(r.tests, 1, env)) IN IF b = 0 THEN "skip" ELSE Verdict(b # r.at)
    [] r.code \in Always ->
         IF ~Reached(r.tests, r.at, env) THEN "skip"
         ELSE LET v == TLCEval(Eval(r.tests[r.at], env)) IN IF Bad(v) THEN "skip" ELSE Verdict(TruthIn(v, env))
    [] r.code = "R6219" ->
         IF ~Reached(r.tests, r.at, env) THEN "skip"
         ELSE Together({ Agree(Eval(r.tests[r.at], env), Eval(r.new, env), FALSE),
                         Agree(Eval(r.tests[r.at], env), Eval(r.old, env), FALSE) })
    [] r.code = "R6220" ->   \* order: the branches in the new order; conds: their new tests; haselse
         LET b == TLCEval(Branch(r.tests, 1, env))
             k == TLCEval(Branch(r.conds, 1, env))
             was == IF b > Len(r.tests) /\ ~r.haselse THEN "none" ELSE ToString(b)
             is == IF k > Len(r.order) THEN "none" ELSE IF k = 0 THEN "fails" ELSE ToString(r.order[k])
         IN IF b = 0 \/ k = 0 THEN "skip" ELSE Verdict(was = is)
    [] r.code \in Static -> "ok"
    [] r.code = "probe" -> "skip"

(* what does not depend on the environment *)
Uniform(r, f(_)) ==   \* f holds in every environment where the arithmetic can be evaluated
  \A env \in Envs(r) : Bad(Eval(r.e, env)) \/ f(env)
StaticOK(r) ==
  CASE r.code = "R6206" -> r.thenvalue # r.elsevalue
    [] r.code = "R6607" -> r.e.k = "bin" /\ r.e.op = r.op /\ Cardinality(Leaves(r.e, r.op)) = 1
    [] r.code = "R6608" ->
         LET Is(v(_)) == Uniform(r, LAMBDA env : IF Bad(v(env)) THEN TRUE ELSE Same(Eval(r.e, env), v(env))) IN
         \/ Is(LAMBDA env : Whole(0)) \/ Is(LAMBDA env : Whole(1))
         \/ Is(LAMBDA env : Eval(r.e.l, env)) \/ Is(LAMBDA env : Eval(r.e.r, env))
         \/ Is(LAMBDA env : Unary("-", Eval(r.e.r, env)))
    [] r.code \notin Static -> TRUE
=============================================================================
