------------------------------- MODULE Loops -------------------------------
(* What EduLint's claims about loops promise of every execution.                 *)
(* A claim is a record r: code, at (the statement it is made about), block (the    *)
(* body of the function), vars (with the values tried), loop (the loop the         *)
(* statement is in), name (the variable spoken about), which ("first", "last",     *)
(* "none", "one").                                                               *)
EXTENDS Suggest

Fuel == 24

(* ---- statements inside statements ---- *)
Compound == {"if", "while", "for"}
RECURSIVE All(_)
All(block) ==
  IF block = << >> THEN << >>
  ELSE << block[1] >> \o (IF block[1].k \in Compound THEN All(block[1].body) \o All(block[1].orelse) ELSE << >>) \o All(Tail(block))
Find(block, at) == LET all == TLCEval(SelectSeq(All(block), LAMBDA st : st.at = at)) IN all[1]
RECURSIVE Replace(_, _, _)
Replace(block, at, new) ==
  IF block = << >> THEN << >>
  ELSE (IF block[1].at = at THEN new
        ELSE IF block[1].k \in Compound
             THEN << [block[1] EXCEPT !.body = Replace(@, at, new), !.orelse = Replace(@, at, new)] >>
             ELSE << block[1] >>)
       \o Replace(Tail(block), at, new)

Name(n) == [k |-> "name", n |-> n]
Not(e) == [k |-> "un", op |-> "not", e |-> e]
Plus(a, op, b) == [k |-> "bin", op |-> op, l |-> a, r |-> b]
(* the expression e with x in the place of old *)
RECURSIVE Subst(_, _, _)
Subst(e, old, x) ==
  IF e = old THEN x
  ELSE CASE e.k = "bin" -> [e EXCEPT !.l = Subst(@, old, x), !.r = Subst(@, old, x)]
         [] e.k = "un" -> [e EXCEPT !.e = Subst(@, old, x)]
         [] e.k \in {"bool", "call"} -> [e EXCEPT !.es = [ i \in 1..Len(e.es) |-> Subst(e.es[i], old, x) ]]
         [] e.k = "cmp" -> [e EXCEPT !.l = Subst(@, old, x), !.rs = [ i \in 1..Len(e.rs) |-> Subst(e.rs[i], old, x) ]]
         [] e.k = "if" -> [e EXCEPT !.c = Subst(@, old, x), !.a = Subst(@, old, x), !.b = Subst(@, old, x)]
         [] e.k = "sub" -> [e EXCEPT !.l = Subst(@, old, x), !.i = Subst(@, old, x)]
         [] e.k = "in" -> [e EXCEPT !.e = Subst(@, old, x), !.l = Subst(@, old, x)]
         [] e.k = "range" -> [e EXCEPT !.e = Subst(@, old, x), !.from = Subst(@, old, x), !.to = Subst(@, old, x)]
         [] e.k \in {"const", "name", "other"} -> e
RECURSIVE SubstAll(_, _, _)
SubstAll(block, old, x) ==
  IF block = << >> THEN << >>
  ELSE LET st == block[1]
           new == CASE st.k = "if" -> [st EXCEPT !.c = Subst(@, old, x), !.body = SubstAll(@, old, x), !.orelse = SubstAll(@, old, x)]
                    [] st.k = "while" -> [st EXCEPT !.c = Subst(@, old, x), !.body = SubstAll(@, old, x), !.orelse = SubstAll(@, old, x)]
                    [] st.k = "for" -> [st EXCEPT !.over =
                                          IF @.k = "list" THEN [@ EXCEPT !.e = Subst(@, old, x)]
                                          ELSE [@ EXCEPT !.from = Subst(@, old, x), !.to = Subst(@, old, x), !.step = Subst(@, old, x)],
                                        !.body = SubstAll(@, old, x), !.orelse = SubstAll(@, old, x)]
                    [] st.k = "assign" -> [st EXCEPT !.es = [ i \in 1..Len(st.es) |-> Subst(st.es[i], old, x) ]]
                    [] st.k \in {"aug", "expr", "print", "return"} -> [st EXCEPT !.e = Subst(@, old, x)]
                    [] st.k = "setitem" -> [st EXCEPT !.i = Subst(@, old, x), !.e = Subst(@, old, x)]
                    [] st.k = "do" -> [st EXCEPT !.es = [ i \in 1..Len(st.es) |-> Subst(st.es[i], old, x) ]]
                    [] st.k = "new" -> [st EXCEPT !.parts = [ i \in 1..Len(st.parts) |-> [st.parts[i] EXCEPT !.e = Subst(@, old, x)] ]]
                    [] st.k = "assert" -> [st EXCEPT !.c = Subst(@, old, x)]
                    [] st.k \in {"pass", "mark", "jump", "other", "delitem"} -> st
       IN << new >> \o SubstAll(Tail(block), old, x)

(* ---- the code with the suggestion followed ---- *)
NoWhileTrue(w) ==
  LET first == w.body[1] IN [w EXCEPT !.c = Not(first.c), !.body = first.orelse \o Tail(w.body)]
Tighter(f, which) ==
  [f EXCEPT !.over = IF which = "first" THEN [@ EXCEPT !.from = Plus(@, "+", f.over.step)]
                     ELSE [@ EXCEPT !.to = Plus(@, "-", f.over.step)]]
(* for v in l, and v instead of l[i] *)
OverElements(f, enumerate) ==
  LET l == f.over.to.es[1] IN
  [f EXCEPT !.over = IF enumerate THEN [k |-> "enum", e |-> l, n |-> f.n] ELSE [k |-> "list", e |-> l],
            !.n = "$v",
            !.body = SubstAll(@, [k |-> "sub", l |-> l, i |-> Name(f.n)], Name("$v"))]

(* ---- executions ---- *)
Run(block, env, fuel) == Exec(block, [State(env) EXCEPT !.fuel = fuel])
Drop(s, names) == [s EXCEPT !.env = [ n \in DOMAIN @ \ names |-> @[n] ]]
(* a: before, b: after (which may do more iterations than the first was allowed) *)
SameRun(a, b, names) ==
  IF a.out = "fuel" THEN "skip" ELSE IF b.out = "fuel" /\ a.out \notin {"u", "raise"} THEN "bad"
  ELSE SameEnd(Drop(a, names), Drop(b, names), FALSE, "")
Compared(r, new, env, names) ==
  LET a == TLCEval(Run(r.block, env, Fuel))  b == TLCEval(Run(Replace(r.block, r.at, new), env, Fuel + 12)) IN SameRun(a, b, names)

(* the entries of the log that concern the loop at a place *)
Of(log, at) == SelectSeq(log, LAMBDA x : x.at = at /\ x.what \in {"enter", "iter", "leave"})
(* the number of iterations since the last enter before entry k *)
RECURSIVE Iterations(_, _)
Iterations(log, k) == IF log[k].what = "enter" THEN 0 ELSE (IF log[k].what = "iter" THEN 1 ELSE 0) + Iterations(log, k - 1)
RECURSIVE Entered(_, _)
Entered(log, k) == IF log[k].what = "enter" THEN k ELSE Entered(log, k - 1)

(* R6305: the values of the variable are those of a range *)
Turned(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<="
AsFor(r, log) ==
  LET w == Find(r.block, r.at)
      onleft == w.c.l = Name(r.name)
      op == IF onleft THEN w.c.ops[1] ELSE Turned(w.c.ops[1])
      limit == IF onleft THEN w.c.rs[1] ELSE w.c.l
      change == IF op \in {"<", "<="} THEN 1 ELSE -1
      One(k) ==
        LET e == log[Entered(log, k)].env
            from == e[r.name]
            to == Eval(limit, e)
            n == TLCEval(Iterations(log, k))
            count == RangeLen(from.n, IF Len(op) = 2 THEN to.n + change ELSE to.n, change)
        IN IF log[k].what = "enter" THEN "ok"
           ELSE IF from.t \notin {"i", "b"} \/ to.t \notin {"i", "b"} THEN "skip"
           ELSE IF log[k].what = "iter" THEN Verdict(n <= count /\ log[k].env[r.name].n = from.n + (n - 1) * change)
           ELSE Verdict(Truth(log[k].v) \/ n = count)
  IN Together({ One(k) : k \in 1..Len(log) })

(* R6303: is the list changed at r.at the one iterated over? *)
Modified(r, log) ==
  LET Last(k) == { j \in 1..(k - 1) : log[j].at = r.loop /\ log[j].what \in {"enter", "iter", "leave"}
                                      /\ \A i \in (j + 1)..(k - 1) : ~(log[i].at = r.loop /\ log[i].what \in {"enter", "iter", "leave"}) }
      inside == { k \in 1..Len(log) : log[k].what = "change" /\ log[k].at = r.at /\ \E j \in Last(k) : log[j].what = "iter" }
  IN IF inside = {} THEN "skip"
     ELSE Verdict(\E k \in inside : \E j \in Last(k) : log[j].v = log[k].v)
Some == {"R6303"}   \* claims that something can happen: one execution has to show it

Claim(r, env) ==
  CASE r.code = "R6301" ->
         LET w == Find(r.block, r.at) IN Compared(r, << NoWhileTrue(w) >>, env, {})
    [] r.code = "R6302" ->
         LET f == Find(r.block, r.at) IN Compared(r, << Tighter(f, r.which) >>, env, {r.name})
    [] r.code = "R6303" -> Modified(r, TLCEval(Run(r.block, env, Fuel)).log)
    [] r.code = "R6304" -> Compared(r, << [k |-> "pass", at |-> 0] >>, env, {r.name})
    [] r.code = "R6305" -> AsFor(r, TLCEval(Of(Run(r.block, env, Fuel).log, r.at)))
    [] r.code = "R6306" ->
         Verdict(/\ Find(r.block, r.at).n = r.name /\ Find(r.block, r.loop).n = r.name
                 /\ \E i \in 1..Len(All(Find(r.block, r.loop).body)) : All(Find(r.block, r.loop).body)[i].at = r.at)
    [] r.code = "R6307" ->
         (* the index is nothing any more *)
         Compared(r, << OverElements(Find(r.block, r.at), FALSE) >>, Put(env, r.name, Error), {r.name, "$v"})
    [] r.code = "R6308" -> Compared(r, << OverElements(Find(r.block, r.at), TRUE) >>, env, {"$v"})
    [] r.code \in {"R6309", "R6310"} ->
         LET log == TLCEval(Of(Run(r.block, env, Fuel).log, r.at))
             ends == { k \in 1..Len(log) : log[k].what = "leave" /\ (r.code = "R6309" \/ Iterations(log, k) > 0) }
         IN IF \E k \in 1..Len(log) : log[k].what = "iter" THEN Verdict(ends = {}) ELSE "skip"
    [] r.code = "R6606" ->
         LET log == TLCEval(Of(Run(r.block, env, Fuel).log, r.at)) IN
         IF log = << >> THEN "skip"
         ELSE Verdict(\A k \in 1..Len(log) : Iterations(log, k) <= (IF r.which = "none" THEN 0 ELSE 1))
=============================================================================
