------------------------------- MODULE MiniPy -------------------------------
(* The meaning of a subset of Python over numbers.                             *)
(*                                                                            *)
(* A value is [t, n, d]: t "b" (bool), "i" (int), "f" (float) with the exact   *)
(* value n/d (d > 0), "s" (a character, n its code), "l" (a list, n its place on   *)
(* the heap), "none", "e" (an exception was raised), "u" (a value this module    *)
(* knows nothing about). The heap, a sequence of sequences of values, is what    *)
(* the environment has under the name "@".                                      *)
(* Expressions:                                                                *)
(*   [k: const, v]  [k: name, n]  [k: bin, op, l, r]  [k: un, op, e]            *)
(*   [k: bool, op, es]  [k: cmp, l, ops, rs]  [k: if, c, a, b]                  *)
(*   [k: call, f, es]   [k: range, e, from, to, step, neg]: e (not) in range    *)
(*   [k: sub, l, i]   [k: in, e, l, neg]                                        *)
(* Statements (at tells apart those that are spoken about):                     *)
(*   assign ns es (targets and values)   aug n op e    expr e    mark m         *)
(*   if c body orelse    return e    pass    jump j (break, continue, raise)    *)
(*   assert c    print e                                                       *)
(*   new n parts (a new list of elements [k: elem, e] and lists [k: all, e])     *)
(*   setitem l i e    do m l es (a method of a list)    delitem l i              *)
(*   while at c body orelse    for at over n body orelse; over is                *)
(*   [k: list, e], [k: enum, e, n] (n: the name of the index) or                 *)
(*   [k: range, from, to, step]                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Num(t, n, d) == [t |-> t, n |-> n, d |-> d]
Bool(b) == Num("b", IF b THEN 1 ELSE 0, 1)
Whole(n) == Num("i", n, 1)
None == Num("none", 0, 1)
Error == Num("e", 0, 1)
Unknown == Num("u", 0, 1)
IsNum(v) == v.t \in {"b", "i", "f"}
Bad(v) == v.t \in {"e", "u"}
Truth(v) == IF v.t = "none" THEN FALSE ELSE IF v.t = "s" THEN TRUE ELSE v.n # 0   \* of other values than lists

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _), Pow(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
(* n/d with any d # 0, in lowest terms *)
Exact(t, n, d) ==
  LET g == Gcd(Abs(n), Abs(d))
      s == IF (n < 0) = (d < 0) THEN 1 ELSE -1
  IN Num(t, s * (Abs(n) \div g), Abs(d) \div g)
(* floor of n/d *)
Floor(n, d) == IF d > 0 THEN n \div d ELSE (-n) \div (-d)
Kind(a, b) == IF a.t = "f" \/ b.t = "f" THEN "f" ELSE "i"

AnyArith(op, a, b) ==
  IF a.t = "e" THEN a ELSE IF b.t = "e" THEN b
  ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN Unknown
  ELSE LET t == Kind(a, b) IN
  CASE op = "+" -> Exact(t, a.n * b.d + b.n * a.d, a.d * b.d)
    [] op = "-" -> Exact(t, a.n * b.d - b.n * a.d, a.d * b.d)
    [] op = "*" -> Exact(t, a.n * b.n, a.d * b.d)
    [] op = "/" -> IF b.n = 0 THEN Error ELSE Exact("f", a.n * b.d, a.d * b.n)
    [] op = "//" -> IF b.n = 0 THEN Error ELSE Num(t, Floor(a.n * b.d, a.d * b.n), 1)
    [] op = "%" -> IF b.n = 0 THEN Error
                   ELSE LET q == TLCEval(Floor(a.n * b.d, a.d * b.n)) IN Exact(t, a.n * b.d - q * b.n * a.d, a.d * b.d)
    [] op = "**" -> IF b.d # 1 \/ Abs(b.n) > 5 \/ (Abs(b.n) > 1 /\ (Abs(a.n) > 40 \/ a.d > 8)) THEN Unknown
                    ELSE IF b.n >= 0 THEN Exact(t, Pow(a.n, b.n), Pow(a.d, b.n))
                    ELSE IF a.n = 0 THEN Error
                    ELSE Exact("f", Pow(a.d, -b.n), Pow(a.n, -b.n))
    [] op \notin {"+", "-", "*", "/", "//", "%", "**"} -> Unknown

(* numbers get no larger than TLC can compute with *)
Cap(v) == IF Abs(v.n) > 20000 \/ v.d > 20000 THEN Unknown ELSE v
Arith(op, a, b) == Cap(AnyArith(op, a, b))

Unary(op, v) ==
  IF Bad(v) THEN v
  ELSE CASE op = "not" -> Bool(~Truth(v))
         [] op = "-" -> IF IsNum(v) THEN Num(IF v.t = "f" THEN "f" ELSE "i", -v.n, v.d) ELSE Unknown
         [] op = "+" -> IF IsNum(v) THEN Num(IF v.t = "f" THEN "f" ELSE "i", v.n, v.d) ELSE Unknown
         [] op \notin {"not", "-", "+"} -> Unknown

Less(a, b) == a.n * b.d < b.n * a.d
Same(a, b) == IF IsNum(a) /\ IsNum(b) THEN a.n * b.d = b.n * a.d ELSE a = b
Compare(op, a, b) ==
  IF a.t = "e" THEN a ELSE IF b.t = "e" THEN b ELSE IF a.t = "u" \/ b.t = "u" THEN Unknown
  ELSE IF op = "==" THEN Bool(Same(a, b))
  ELSE IF op = "!=" THEN Bool(~Same(a, b))
  ELSE IF op = "is" \/ op = "is not"
       THEN IF {a.t, b.t} \subseteq {"b", "none"} \/ a.t # b.t THEN Bool((a = b) = (op = "is")) ELSE Unknown
  ELSE IF IsNum(a) # IsNum(b) \/ a.t = "none" \/ b.t = "none" THEN Error
  ELSE IF "l" \in {a.t, b.t} THEN Unknown
  ELSE CASE op = "<" -> Bool(Less(a, b))
         [] op = ">" -> Bool(Less(b, a))
         [] op = "<=" -> Bool(~Less(b, a))
         [] op = ">=" -> Bool(~Less(a, b))
         [] op \notin {"<", ">", "<=", ">="} -> Unknown

(* the first of the greatest (least), as max and min do *)
RECURSIVE Extreme(_, _)
Extreme(greatest, vs) ==
  IF Len(vs) = 1 THEN vs[1]
  ELSE LET x == IF (IF greatest THEN Less(vs[1], vs[2]) ELSE Less(vs[2], vs[1])) THEN vs[2] ELSE vs[1]
       IN Extreme(greatest, << x >> \o SubSeq(vs, 3, Len(vs)))
InRange(v, a, b, s) ==
  /\ v.d = 1
  /\ IF s.n > 0 THEN a.n <= v.n /\ v.n < b.n ELSE b.n < v.n /\ v.n <= a.n
  /\ (v.n - a.n) % Abs(s.n) = 0

RECURSIVE Sum(_)
Sum(es) == IF es = << >> THEN Whole(0) ELSE LET r == TLCEval(Sum(Tail(es))) IN Arith("+", es[1], r)
Call(f, vs, heap) ==
  IF \E i \in 1..Len(vs) : vs[i].t = "e" THEN Error
  ELSE IF \E i \in 1..Len(vs) : vs[i].t = "u" THEN Unknown
  ELSE IF f = "ord" THEN (IF Len(vs) = 1 /\ vs[1].t = "s" THEN Whole(vs[1].n) ELSE Error)
  ELSE IF f = "len" THEN (IF Len(vs) = 1 /\ vs[1].t = "l" THEN Whole(Len(heap[vs[1].n])) ELSE Error)
  ELSE IF f = "bool" /\ Len(vs) = 1 THEN Bool(IF vs[1].t = "l" THEN heap[vs[1].n] # << >> ELSE Truth(vs[1]))
  ELSE IF f \in {"max", "min", "sum"} /\ Len(vs) = 1 /\ vs[1].t = "l"
       THEN LET es == heap[vs[1].n] IN
            IF \E i \in 1..Len(es) : ~IsNum(es[i]) THEN Unknown
            ELSE IF f = "sum" THEN Sum(es) ELSE IF es = << >> THEN Error ELSE Extreme(f = "max", es)
  ELSE IF f \in {"max", "min"} /\ {TRUE, FALSE} \subseteq { vs[i].t = "l" : i \in 1..Len(vs) } THEN Error
  ELSE IF \E i \in 1..Len(vs) : ~IsNum(vs[i]) THEN Unknown
  ELSE CASE f = "abs" /\ Len(vs) = 1 -> Num(IF vs[1].t = "f" THEN "f" ELSE "i", Abs(vs[1].n), vs[1].d)
         [] f = "max" /\ Len(vs) > 1 -> Extreme(TRUE, vs)
         [] f = "min" /\ Len(vs) > 1 -> Extreme(FALSE, vs)
         [] f = "int" /\ Len(vs) = 1 -> Whole((IF vs[1].n < 0 THEN -1 ELSE 1) * (Abs(vs[1].n) \div vs[1].d))
         [] f = "float" /\ Len(vs) = 1 -> Num("f", vs[1].n, vs[1].d)
         [] f \in {"abs", "max", "min", "int", "float", "sum"} -> IF Len(vs) = 1 /\ f \in {"max", "min", "sum"} THEN Error ELSE Unknown
         [] f \notin {"abs", "max", "min", "int", "float", "sum"} -> Unknown

(* the place an index of a sequence of n elements speaks about, or 0 *)
Place(i, n) == IF i.n >= 0 /\ i.n < n THEN i.n + 1 ELSE IF i.n < 0 /\ -i.n <= n THEN n + i.n + 1 ELSE 0
Sub(l, i, heap) ==
  IF l.t = "e" THEN l ELSE IF i.t = "e" THEN i ELSE IF l.t = "u" \/ i.t = "u" THEN Unknown
  ELSE IF l.t # "l" \/ i.t \notin {"i", "b"} THEN Error
  ELSE IF Place(i, Len(heap[l.n])) = 0 THEN Error ELSE heap[l.n][Place(i, Len(heap[l.n]))]
Heap(env) == IF "@" \in DOMAIN env THEN env["@"] ELSE << >>

TruthIn(v, env) == IF v.t = "l" THEN Heap(env)[v.n] # << >> ELSE Truth(v)

RECURSIVE Eval(_, _), BoolOp(_, _, _), Chain(_, _, _, _)
Eval(e, env) ==
  CASE e.k = "const" -> e.v
    [] e.k = "name" -> IF e.n \in DOMAIN env THEN env[e.n] ELSE Unknown
    [] e.k = "bin" -> LET a == TLCEval(Eval(e.l, env)) IN IF a.t = "e" THEN a ELSE Arith(e.op, a, Eval(e.r, env))
    [] e.k = "un" -> LET a == TLCEval(Eval(e.e, env)) IN IF a.t = "l" /\ e.op = "not" THEN Bool(~TruthIn(a, env)) ELSE Unary(e.op, a)
    [] e.k = "bool" -> BoolOp(e.op, e.es, env)
    [] e.k = "cmp" -> LET a == TLCEval(Eval(e.l, env)) IN IF a.t = "e" THEN a ELSE Chain(a, e.ops, e.rs, env)
    [] e.k = "if" -> LET c == TLCEval(Eval(e.c, env)) IN IF Bad(c) THEN c ELSE IF TruthIn(c, env) THEN Eval(e.a, env) ELSE Eval(e.b, env)
    [] e.k = "call" -> Call(e.f, TLCEval([ i \in 1..Len(e.es) |-> Eval(e.es[i], env) ]), Heap(env))
    [] e.k = "sub" -> Sub(TLCEval(Eval(e.l, env)), TLCEval(Eval(e.i, env)), Heap(env))
    [] e.k = "in" -> LET v == TLCEval(Eval(e.e, env))  l == TLCEval(Eval(e.l, env)) IN
                     IF v.t = "e" THEN v ELSE IF l.t = "e" THEN l ELSE IF v.t = "u" \/ l.t # "l" THEN Unknown
                     ELSE Bool((\E i \in 1..Len(Heap(env)[l.n]) : Same(v, Heap(env)[l.n][i])) # e.neg)
    [] e.k = "range" ->
         LET v == TLCEval(Eval(e.e, env))  a == TLCEval(Eval(e.from, env))  b == TLCEval(Eval(e.to, env))  s == TLCEval(Eval(e.step, env))
             all == TLCEval(<< v, a, b, s >>)
         IN IF \E i \in 1..4 : all[i].t = "e" THEN Error
            ELSE IF \E i \in 1..4 : all[i].t = "u" THEN Unknown
            ELSE IF s.n = 0 \/ \E i \in 2..4 : all[i].t \notin {"i", "b"} THEN Error
            ELSE Bool((IsNum(v) /\ InRange(v, a, b, s)) # e.neg)
    [] e.k = "other" -> Unknown
BoolOp(op, es, env) ==
  LET v == TLCEval(Eval(es[1], env)) IN
  IF Len(es) = 1 \/ Bad(v) \/ TruthIn(v, env) = (op = "or") THEN v ELSE BoolOp(op, Tail(es), env)
Chain(a, ops, rs, env) ==
  LET b == TLCEval(Eval(rs[1], env))  v == TLCEval(Compare(ops[1], a, b)) IN
  IF Len(ops) = 1 \/ Bad(v) \/ ~Truth(v) THEN v ELSE Chain(b, Tail(ops), Tail(rs), env)

(* ---- statements ---- *)
(* out: "next", "return", "raise", "break", "continue", "u", "fuel" (too many     *)
(* iterations); tr: what was printed; log: what happened to loops and lists        *)
State(env) == [env |-> env, out |-> "next", val |-> None, tr |-> << >>, fuel |-> 0, log |-> << >>]
Ends(s, v) == [s EXCEPT !.out = IF v.t = "e" THEN "raise" ELSE "u"]
(* the environment with the value; a name may be new *)
Put(env, n, v) == TLCEval([ m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m] ])
Log(s, what, at, v) == [s EXCEPT !.log = Append(@, [what |-> what, at |-> at, v |-> v, env |-> s.env])]
SetList(s, l, es) == [s EXCEPT !.env = [@ EXCEPT !["@"] = [@ EXCEPT ![l.n] = es]]]

RECURSIVE Concat(_, _, _)
(* the elements of a new list: a value that is no element ends it *)
Concat(parts, env, res) ==
  IF parts = << >> THEN [bad |-> None, es |-> res]
  ELSE LET v == TLCEval(Eval(parts[1].e, env)) IN
       IF Bad(v) THEN [bad |-> v, es |-> << >>]
       ELSE IF parts[1].k = "all" THEN (IF v.t # "l" THEN [bad |-> Unknown, es |-> << >>]
                                        ELSE Concat(Tail(parts), env, res \o Heap(env)[v.n]))
       ELSE Concat(Tail(parts), env, Append(res, v))
New(s, n, made) ==
  IF made.bad # None THEN Ends(s, made.bad)
  ELSE [s EXCEPT !.env = Put(Put(@, "@", Append(Heap(@), made.es)), n, Num("l", Len(Heap(@)) + 1, 1))]

Without(es, p) == SubSeq(es, 1, p - 1) \o SubSeq(es, p + 1, Len(es))
(* the method m of the list at l *)
Method(s, m, l, vs, at) ==
  IF l.t # "l" THEN Ends(s, IF l.t = "u" THEN l ELSE Error)
  ELSE IF \E i \in 1..Len(vs) : Bad(vs[i]) THEN Ends(s, vs[CHOOSE i \in 1..Len(vs) : Bad(vs[i])])
  ELSE LET es == Heap(s.env)[l.n]
           t == Log(s, "change", at, l)
       IN CASE m = "append" -> SetList(t, l, Append(es, vs[1]))
            [] m = "clear" -> SetList(t, l, << >>)
            [] m = "reverse" -> SetList(t, l, [ i \in 1..Len(es) |-> es[Len(es) + 1 - i] ])
            [] m = "pop" -> LET p == IF vs = << >> THEN Len(es) ELSE Place(vs[1], Len(es)) IN
                            IF p = 0 THEN [s EXCEPT !.out = "raise"] ELSE SetList(t, l, Without(es, p))
            [] m = "insert" -> LET p == IF vs[1].n >= 0 THEN vs[1].n ELSE Len(es) + vs[1].n
                                   q == IF p < 0 THEN 0 ELSE IF p > Len(es) THEN Len(es) ELSE p
                               IN SetList(t, l, SubSeq(es, 1, q) \o << vs[2] >> \o SubSeq(es, q + 1, Len(es)))
            [] m = "remove" -> LET ps == { i \in 1..Len(es) : Same(es[i], vs[1]) } IN
                               IF ps = {} THEN [s EXCEPT !.out = "raise"]
                               ELSE SetList(t, l, Without(es, CHOOSE i \in ps : \A j \in ps : i <= j))
            [] m = "extend" -> IF vs[1].t # "l" THEN Ends(s, Error) ELSE SetList(t, l, es \o Heap(s.env)[vs[1].n])
            [] m \in {"count", "index", "copy"} -> s
            [] m \notin {"append", "clear", "reverse", "pop", "insert", "remove", "extend", "count", "index", "copy"} -> [s EXCEPT !.out = "u"]

RECURSIVE Exec(_, _), Exec1(_, _), While(_, _), For(_, _, _, _)
Exec(block, s) ==
  IF block = << >> \/ s.out # "next" THEN s ELSE Exec(Tail(block), Exec1(block[1], s))

(* what follows the body of a loop *)
Left(st, s) == [Log(s, "leave", st.at, Bool(s.out = "break")) EXCEPT !.out = "next"]
While(st, s) ==
  LET v == TLCEval(Eval(st.c, s.env)) IN
  IF Bad(v) THEN Ends(s, v)
  ELSE IF ~TruthIn(v, s.env) THEN Exec(st.orelse, Left(st, s))
  ELSE IF s.fuel = 0 THEN [s EXCEPT !.out = "fuel"]
  ELSE LET b == TLCEval(Exec(st.body, Log([s EXCEPT !.fuel = @ - 1], "iter", st.at, None))) IN
       IF b.out \in {"next", "continue"} THEN While(st, [b EXCEPT !.out = "next"])
       ELSE IF b.out = "break" THEN Left(st, b) ELSE b
(* src: the value iterated over, and if it is not a list, the values *)
For(st, s, src, k) ==
  LET es == IF src.l.t = "l" THEN Heap(s.env)[src.l.n] ELSE src.es IN
  IF k > Len(es) THEN Exec(st.orelse, Left(st, s))
  ELSE IF s.fuel = 0 THEN [s EXCEPT !.out = "fuel"]
  ELSE LET env == IF st.over.k = "enum" THEN Put(Put(s.env, st.over.n, Whole(k - 1)), st.n, es[k]) ELSE Put(s.env, st.n, es[k])
           b == TLCEval(Exec(st.body, Log([s EXCEPT !.fuel = @ - 1, !.env = env], "iter", st.at, src.l)))
       IN IF b.out \in {"next", "continue"} THEN For(st, [b EXCEPT !.out = "next"], src, k + 1)
          ELSE IF b.out = "break" THEN Left(st, b) ELSE b
RangeLen(a, b, s) ==
  IF s > 0 THEN (IF a < b THEN (b - a + s - 1) \div s ELSE 0) ELSE (IF a > b THEN (a - b - s - 1) \div (-s) ELSE 0)
StartFor(st, s) ==
  IF st.over.k = "range" THEN
    LET vs == TLCEval([ i \in 1..3 |-> Eval(<< st.over.from, st.over.to, st.over.step >>[i], s.env) ]) IN
    IF \E i \in 1..3 : Bad(vs[i]) THEN Ends(s, vs[CHOOSE i \in 1..3 : Bad(vs[i]) /\ \A j \in 1..(i - 1) : ~Bad(vs[j])])
    ELSE IF (\E i \in 1..3 : vs[i].t \notin {"i", "b"}) \/ vs[3].n = 0 THEN [s EXCEPT !.out = "raise"]
    ELSE IF RangeLen(vs[1].n, vs[2].n, vs[3].n) > 60 THEN [s EXCEPT !.out = "u"]
    ELSE For(st, Log(s, "enter", st.at, None),
             [l |-> None, es |-> TLCEval([ i \in 1..RangeLen(vs[1].n, vs[2].n, vs[3].n) |-> Whole(vs[1].n + (i - 1) * vs[3].n) ])], 1)
  ELSE LET l == TLCEval(Eval(st.over.e, s.env)) IN
       IF Bad(l) THEN Ends(s, l) ELSE IF l.t # "l" THEN [s EXCEPT !.out = IF IsNum(l) THEN "raise" ELSE "u"]
       ELSE For(st, Log(s, "enter", st.at, l), [l |-> l, es |-> << >>], 1)

SetItem(s, l, i, v, at) ==
  IF Bad(v) THEN Ends(s, v) ELSE IF Bad(l) THEN Ends(s, l) ELSE IF Bad(i) THEN Ends(s, i)
  ELSE IF l.t # "l" \/ i.t \notin {"i", "b"} THEN [s EXCEPT !.out = "raise"]
  ELSE IF Place(i, Len(Heap(s.env)[l.n])) = 0 THEN [s EXCEPT !.out = "raise"]
  ELSE SetList(Log(s, "set", at, l), l, [Heap(s.env)[l.n] EXCEPT ![Place(i, Len(Heap(s.env)[l.n]))] = v])
DelItem(s, l, i, at) ==
  IF Bad(l) THEN Ends(s, l) ELSE IF Bad(i) THEN Ends(s, i)
  ELSE IF l.t # "l" \/ i.t \notin {"i", "b"} THEN [s EXCEPT !.out = "raise"]
  ELSE IF Place(i, Len(Heap(s.env)[l.n])) = 0 THEN [s EXCEPT !.out = "raise"]
  ELSE SetList(Log(s, "change", at, l), l, Without(Heap(s.env)[l.n], Place(i, Len(Heap(s.env)[l.n]))))

Exec1(st, s) ==
  CASE st.k = "pass" -> s
    [] st.k = "mark" -> [s EXCEPT !.tr = Append(@, st.m)]
    [] st.k = "expr" -> LET v == TLCEval(Eval(st.e, s.env)) IN IF Bad(v) THEN Ends(s, v) ELSE s
    [] st.k = "return" -> LET v == TLCEval(Eval(st.e, s.env)) IN
                          IF Bad(v) THEN Ends(s, v) ELSE [s EXCEPT !.out = "return", !.val = v]
    [] st.k = "jump" -> [s EXCEPT !.out = st.j]
    [] st.k = "assert" -> LET v == TLCEval(Eval(st.c, s.env)) IN
                          IF Bad(v) THEN Ends(s, v) ELSE IF TruthIn(v, s.env) THEN s ELSE [s EXCEPT !.out = "raise"]
    [] st.k = "print" -> LET v == TLCEval(Eval(st.e, s.env)) IN
                         IF Bad(v) THEN Ends(s, v) ELSE IF v.t = "l" THEN [s EXCEPT !.out = "u"] ELSE [s EXCEPT !.tr = Append(@, v)]
    [] st.k = "new" -> New(s, st.n, Concat(st.parts, s.env, << >>))
    [] st.k = "setitem" -> SetItem(s, TLCEval(Eval(st.l, s.env)), TLCEval(Eval(st.i, s.env)), TLCEval(Eval(st.e, s.env)), st.at)
    [] st.k = "delitem" -> DelItem(s, TLCEval(Eval(st.l, s.env)), TLCEval(Eval(st.i, s.env)), st.at)
    [] st.k = "do" -> Method(s, st.m, TLCEval(Eval(st.l, s.env)), TLCEval([ i \in 1..Len(st.es) |-> Eval(st.es[i], s.env) ]), st.at)
    [] st.k = "while" -> While(st, Log(s, "enter", st.at, None))
    [] st.k = "for" -> StartFor(st, s)
    [] st.k = "assign" ->
         LET vs == TLCEval([ i \in 1..Len(st.es) |-> Eval(st.es[i], s.env) ])
             bad == { i \in 1..Len(vs) : Bad(vs[i]) }
         IN IF bad # {} THEN Ends(s, vs[CHOOSE i \in bad : \A j \in bad : i <= j])
            ELSE [s EXCEPT !.env = TLCEval([ n \in DOMAIN @ \cup { st.ns[i] : i \in 1..Len(st.ns) } |->
                   IF \E i \in 1..Len(st.ns) : st.ns[i] = n
                   THEN vs[CHOOSE i \in 1..Len(st.ns) : st.ns[i] = n /\ \A j \in (i + 1)..Len(st.ns) : st.ns[j] # n]
                   ELSE @[n] ])]
    [] st.k = "aug" ->
         LET v == TLCEval(Eval([k |-> "bin", op |-> st.op, l |-> [k |-> "name", n |-> st.n], r |-> st.e], s.env))
         IN IF Bad(v) THEN Ends(s, v) ELSE [s EXCEPT !.env = Put(@, st.n, v)]
    [] st.k = "if" -> LET v == TLCEval(Eval(st.c, s.env)) IN
                      IF Bad(v) THEN Ends(s, v) ELSE Exec(IF TruthIn(v, s.env) THEN st.body ELSE st.orelse, s)
    [] st.k = "other" -> [s EXCEPT !.out = "u"]
=============================================================================
