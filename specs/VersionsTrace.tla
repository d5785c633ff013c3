---------------------------- MODULE VersionsTrace ----------------------------
EXTENDS Versions, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos
(* A process is a sequence of lookups: one announces (after a positive      *)
(* lookup it looks up again for the text); "again" is kept in the process.  *)
Proc(k, l) == [look |-> Look(k, l.pkg, l.ttl), op |-> l.op, first |-> "", req |-> 0, res |-> "", done |-> FALSE]
Answer(l, op, first, local) ==
  CASE op = "latest" -> l
    [] op = "waiting" -> IF Announces(l, local) THEN "yes" ELSE "no"
    [] OTHER -> IF first = "" THEN (IF Announces(l, local) THEN "" ELSE "silent")
                ELSE IF l = "none" THEN "None" ELSE l
PStep(st, p, local) ==
  IF p.done THEN {}
  ELSE { LET q == [p EXCEPT !.look = n.p] IN
         IF n.p.pc # "done" THEN [st |-> n.st, p |-> q]
         ELSE LET a == Answer(n.p.res, p.op, p.first, local) IN
              IF a = "" THEN [st |-> n.st, p |-> [q EXCEPT !.first = n.p.res, !.req = @ + n.p.req, !.look = Look(n.p.k, n.p.pkg, n.p.ttl)]]
              ELSE [st |-> n.st, p |-> [q EXCEPT !.done = TRUE, !.res = a, !.req = @ + n.p.req]]
         : n \in Step(st, p.look) }
RECURSIVE RunAll(_, _, _)
RunAll(todo, seen, local) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION { UNION { { [st |-> n.st, ps |-> [x.ps EXCEPT ![i] = n.p]] : n \in PStep(x.st, x.ps[i], local) } : i \in DOMAIN x.ps } : x \in todo }
           new == TLCEval(nxt \ seen)
       IN RunAll(new, TLCEval(seen \cup new), local)
Runs(st, ls, local) == LET s == {[st |-> st, ps |-> [i \in 1..Len(ls) |-> Proc(i, ls[i])]]} IN RunAll(s, s, local)
Fits(p, o) == o.res = "crashed" \/ (p.done /\ p.res = o.res /\ p.req = o.req)
Calm(st) == IF st.hold = 0 THEN st ELSE [st EXCEPT !.data = Nothing, !.hold = 0]
After(S, l, local) ==
  CASE l.op = "adv" -> { [st EXCEPT !.now = @ + l.d] : st \in S }
    [] l.op = "srv" -> { [st EXCEPT !.mode = l.mode, !.rels = l.rels] : st \in S }
    [] l.op \in {"wipe", "damage"} -> { [st EXCEPT !.data = Nothing, !.hold = 0] : st \in S }
    [] OTHER -> LET ls == IF l.op = "par" THEN l.par ELSE << l >> IN
         UNION { { Calm(x.st) : x \in { y \in Runs(st, ls, local) : \A i \in 1..Len(ls) : Fits(y.ps[i], ls[i]) } } : st \in S }
RECURSIVE Walk(_, _, _, _)
Walk(lines, i, S, local) ==
  IF i > Len(lines) THEN 0
  ELSE LET T == TLCEval(After(S, lines[i], local)) IN IF T = {} THEN i ELSE Walk(lines, i + 1, T, local)
Bad(r) == Walk(r.lines, 1, {Start(1700000000)}, "4.3.1")
Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == Bad(Recs[i]) IN IF f = 0 THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, line |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
