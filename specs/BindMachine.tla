----------------------------- MODULE BindMachine -----------------------------
(* All small nestings of scopes around a few names.  Tokens:                   *)
(*   b:x bind   r:x read   d:x delete   g:x global   n:x nonlocal              *)
(*   w:x assignment expression     a:x annotation without a value              *)
(*   D   def f():       Dx:x def f(x=x):      C class:      .  leave            *)
(*   L:x (lambda x=x: ...)      K:x [... for x in (x)]      K:y / L:y alike     *)
EXTENDS Bind, Json, IOUtils

Names == IF atoi(IOEnv.NAMES) = 1 THEN {"x"} ELSE {"x", "y"}
Max == atoi(IOEnv.MAXTOK)
VARIABLES toks, stack, ss, os, ds, open
vars == << toks, stack, ss, os, ds, open >>

Top == stack[Len(stack)]
TopKind == ss[Top].kind
InExpr == TopKind \in {"lambda", "comp"}
Occ(n, s, part, acc) == [name |-> n, scope |-> s, part |-> part, access |-> acc, walrus |-> FALSE]
Walrus(n, s) == [name |-> n, scope |-> s, part |-> "body", access |-> "bind", walrus |-> TRUE]

Init == /\ toks = << >> /\ stack = << Module >> /\ os = << >> /\ ds = << >> /\ open = FALSE
        /\ ss = << [kind |-> "module", parent |-> 0, part |-> ""] >>

Put(t, new) == /\ toks' = Append(toks, t) /\ os' = os \o new /\ open' = FALSE

Simple(n) ==
  \/ Put("r:" \o n, << Occ(n, Top, "body", "read") >>)
  \/ /\ ~InExpr /\ Put("b:" \o n, << Occ(n, Top, "body", "bind") >>)
  \/ /\ ~InExpr /\ Put("d:" \o n, << Occ(n, Top, "body", "del") >>)
  \/ /\ ~InExpr /\ TopKind = "function" /\ Put("a:" \o n, << Occ(n, Top, "body", "declare") >>)
  \/ /\ TopKind # "class" /\ Put("w:" \o n, << Walrus(n, Top) >>)

(* declarations stand first in their scope *)
Declare(n) ==
  /\ TopKind \in {"function", "class"} /\ open
  /\ \E k \in {"global", "nonlocal"} :
       /\ ~\E d \in 1..Len(ds) : ds[d].name = n /\ ds[d].scope = Top
       /\ ~\E i \in 1..Len(os) : os[i].name = n /\ Home(ss, os[i]) = Top
       /\ k = "nonlocal" => Outer(Program(ss, os, ds), Enclosing(ss, Top), n) # Module
       /\ ds' = Append(ds, [name |-> n, scope |-> Top, kind |-> k])
       /\ toks' = Append(toks, (IF k = "global" THEN "g:" ELSE "n:") \o n)
  /\ UNCHANGED << stack, ss, os, open >>

Scope(t, kind, new) ==
  /\ ss' = Append(ss, [kind |-> kind, parent |-> Top, part |-> "body"])
  /\ stack' = Append(stack, Len(ss) + 1)
  /\ toks' = Append(toks, t) /\ os' = os \o new /\ open' = TRUE /\ UNCHANGED ds
New == Len(ss) + 1
Enter ==
  \/ /\ ~InExpr /\ Scope("D", "function", << >>)
  \/ /\ ~InExpr /\ Scope("C", "class", << >>)
  \/ \E n \in Names :
       \/ /\ ~InExpr /\ Scope("D:" \o n, "function", << Occ(n, New, "default", "read"), Occ(n, New, "body", "bind") >>)
       \/ Scope("L:" \o n, "lambda", << Occ(n, New, "default", "read"), Occ(n, New, "body", "bind") >>)
       \/ Scope("K:" \o n, "comp", << Occ(n, New, "firstiter", "read"), Occ(n, New, "body", "bind") >>)
Leave == Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ toks' = Append(toks, ".")
         /\ open' = FALSE /\ UNCHANGED << ss, os, ds >>

Next == /\ Len(toks) < Max
        /\ \/ \E n \in Names : Simple(n) /\ UNCHANGED << stack, ss, ds >>
           \/ \E n \in Names : Declare(n)
           \/ Enter
           \/ Leave
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
P == Program(ss, os, ds)
(* a name is owned by a scope that binds it, or is the module's or a builtin    *)
OwnersBind == \A i \in 1..Len(os) : \A s \in Attribution(P, os[i]) :
  s \in {None, Module} \/ << s, os[i].name >> \in P.bound
(* inner scopes never see names of a class                                      *)
ClassesHide == \A i \in 1..Len(os) : \A s \in Attribution(P, os[i]) :
  (s # None /\ ss[s].kind = "class") => Home(ss, os[i]) = s
(* a binding without a declaration is the binding scope's own                   *)
OwnBindings == \A i \in 1..Len(os) :
  LET h == Home(ss, os[i]) IN
  (os[i].access # "read" /\ << h, os[i].name >> \notin P.glob \cup P.nonl) => Attribution(P, os[i]) = {h}
(* what is nonlocal is a function's                                             *)
NonlocalsAreFunctions == \A k \in P.nonl : Owner(P, k[1], k[2]) # Module
(* emitted when the program can be closed within the bound: only when complete  *)
Emit == (Len(toks) = Max \/ Len(stack) = 1) =>
  PrintT("CASE " \o ToJson([toks |-> toks, ss |-> ss, os |-> os, ds |-> ds]))
==============================================================================
