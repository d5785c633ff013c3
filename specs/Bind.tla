-------------------------------- MODULE Bind --------------------------------
(* Which scope a name belongs to (Python's reference, "Naming and binding").  *)
(*                                                                            *)
(* scopes: Seq of [kind, parent, part]; scope 1 is the module.  kind is one    *)
(*   of module, function, lambda, class, comp; part says where in the parent   *)
(*   the scope stands.                                                         *)
(* occs: Seq of [name, scope, part, access, walrus]; access is bind, read,     *)
(*   del or declare (`x: int` without a value, which binds and does nothing).  *)
(* decls: Seq of [name, scope, kind] (kind is global or nonlocal).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == 0
Module == 1

(* Decorators, defaults, annotations, bases and the first iterable of a        *)
(* comprehension are evaluated where the scope is created, not inside.         *)
Outside(kind) ==
  CASE kind = "function" -> {"decorator", "default", "annotation"}
    [] kind = "lambda" -> {"default"}
    [] kind = "class" -> {"decorator", "base"}
    [] kind = "comp" -> {"firstiter"}
    [] OTHER -> {}

RECURSIVE Eval(_, _, _)
Eval(ss, s, part) ==
  IF part \in Outside(ss[s].kind) THEN Eval(ss, ss[s].parent, ss[s].part) ELSE s
Enclosing(ss, s) == Eval(ss, ss[s].parent, ss[s].part)

(* an assignment expression in a comprehension binds outside of it             *)
RECURSIVE NotComp(_, _)
NotComp(ss, s) == IF ss[s].kind = "comp" THEN NotComp(ss, Enclosing(ss, s)) ELSE s

Home(ss, o) == LET s == Eval(ss, o.scope, o.part) IN IF o.walrus THEN NotComp(ss, s) ELSE s

BoundIn(ss, os) == { << Home(ss, os[i]), os[i].name >> : i \in { j \in 1..Len(os) : os[j].access # "read" } }
Declared(ds, kind) == { << ds[i].scope, ds[i].name >> : i \in { j \in 1..Len(ds) : ds[j].kind = kind } }

(* p = [ss, bound, glob, nonl]: a program with its sets of bindings             *)
Program(ss, os, ds) ==
  [ss |-> ss, bound |-> BoundIn(ss, os), glob |-> Declared(ds, "global"), nonl |-> Declared(ds, "nonlocal")]

(* A name declared global is the module's, whether bound there or not.         *)
InModule(p, n) == << Module, n >> \in p.bound \/ \E g \in p.glob : g[2] = n /\ g \in p.bound
MaybeInModule(p, n) == \E g \in p.glob : g[2] = n

(* the scopes that a name of scope s may belong to, from s outwards            *)
RECURSIVE Outer(_, _, _)
Outer(p, s, n) ==     \* classes are invisible from inside
  IF s = Module THEN Module
  ELSE LET k == << s, n >> IN
       IF p.ss[s].kind = "class" THEN Outer(p, Enclosing(p.ss, s), n)
       ELSE IF k \in p.glob THEN Module
       ELSE IF k \in p.nonl THEN Outer(p, Enclosing(p.ss, s), n)
       ELSE IF k \in p.bound THEN s
       ELSE Outer(p, Enclosing(p.ss, s), n)

Owner(p, s, n) ==
  IF s = Module THEN Module
  ELSE LET k == << s, n >> IN
       IF k \in p.glob THEN Module
       ELSE IF k \in p.nonl THEN Outer(p, Enclosing(p.ss, s), n)
       ELSE IF k \in p.bound THEN s
       ELSE Outer(p, Enclosing(p.ss, s), n)

(* the scopes to which an occurrence may be attributed; None: to no variable   *)
(* of the program (a builtin)                                                  *)
Attribution(p, o) ==
  LET s == Owner(p, Home(p.ss, o), o.name) IN
  IF s # Module \/ InModule(p, o.name) THEN {s}
  ELSE IF MaybeInModule(p, o.name) THEN {Module, None}
  ELSE {None}
=============================================================================
