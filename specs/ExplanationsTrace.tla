-------------------------- MODULE ExplanationsTrace --------------------------
EXTENDS Explanations, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos
ProcsOf(l) == CASE l.op = "update" -> IF l.off THEN << >> ELSE << Upd >>
                [] l.upd -> << Show, Upd >>
                [] OTHER -> << Show >>
RECURSIVE RunAll(_, _, _)
RunAll(todo, seen, alone) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION { UNION { { [st |-> n.st, ps |-> [x.ps EXCEPT ![i] = n.p]] : n \in Step(x.st, x.ps[i], alone) } : i \in DOMAIN x.ps } : x \in todo }
           new == TLCEval(nxt \ seen)
       IN RunAll(new, TLCEval(seen \cup new), alone)
Runs(st, ps, alone) == LET s == {[st |-> st, ps |-> ps]} IN RunAll(s, s, alone)
Ended(ps) == \A i \in DOMAIN ps : ps[i].pc = "done"
Req(ps) == IF Len(ps) = 0 THEN 0 ELSE IF Len(ps) = 1 THEN ps[1].req ELSE ps[1].req + ps[2].req
Res(ps) == IF Len(ps) = 0 THEN "done" ELSE ps[1].res
RECURSIVE WreckAll(_, _, _)
WreckAll(S, ps, i) == IF i > Len(ps) THEN S
  ELSE WreckAll(UNION { IF ps[i].pc = "done" THEN {s} ELSE Wrecked(s, ps[i]) : s \in S }, ps, i + 1)
(* the processes of several operations at once: which belong to which *)
Fit(ps, l, base) ==
  LET mine == SubSeq(ps, base + 1, base + Len(ProcsOf(l))) IN
  l.res = "crashed" \/ (Ended(mine) /\ Res(mine) = l.res /\ Req(mine) = l.req)
After(S, l) ==
  CASE l.op = "adv" -> { [st EXCEPT !.now = @ + l.d] : st \in S }
    [] l.op = "srv" -> { [st EXCEPT !.mode = l.mode, !.v = l.v] : st \in S }
    [] l.op = "wipe" -> { [st EXCEPT !.online = "", !.last = 0, !.stuck = FALSE] : st \in S }
    [] OTHER ->
       LET ls == IF l.op = "par" THEN l.par ELSE << l >>
           all == IF Len(ls) = 1 THEN ProcsOf(ls[1]) ELSE IF Len(ls) = 2 THEN ProcsOf(ls[1]) \o ProcsOf(ls[2])
                  ELSE ProcsOf(ls[1]) \o ProcsOf(ls[2]) \o ProcsOf(ls[3])
           b(i) == IF i = 1 THEN 0 ELSE IF i = 2 THEN Len(ProcsOf(ls[1])) ELSE Len(ProcsOf(ls[1])) + Len(ProcsOf(ls[2]))
           crash == \E i \in 1..Len(ls) : ls[i].res = "crashed"
           alone == Cardinality({ i \in DOMAIN all : all[i].k = "update" }) <= 1
       IN UNION { UNION { IF crash THEN WreckAll({x.st}, x.ps, 1) ELSE IF Ended(x.ps) THEN {x.st} ELSE {} :
                          x \in { y \in Runs(st, all, alone) : \A i \in 1..Len(ls) : Fit(y.ps, ls[i], b(i)) } } : st \in S }
RECURSIVE Walk(_, _, _)
Walk(lines, i, S) == IF i > Len(lines) THEN 0 ELSE LET T == TLCEval(After(S, lines[i])) IN IF T = {} THEN i ELSE Walk(lines, i + 1, T)
Bad(r) == Walk(r.lines, 1, {Start(1700000000)})
Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == Bad(Recs[i]) IN IF f = 0 THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, line |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
