--------------------------- MODULE RemoteCacheTrace ---------------------------
(* Is a recorded history one the specification allows?  After every recorded *)
(* operation the set of states the specification can be in is kept.          *)
EXTENDS RemoteCache, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

(* all ways to run processes ps (a sequence) in state st: set of [st, ps] *)
RECURSIVE RunAll(_, _, _)
RunAll(todo, seen, crash) ==       \* crash: may stop anywhere
  IF todo = {} THEN (IF crash THEN seen ELSE { x \in seen : \A i \in DOMAIN x.ps : x.ps[i].pc = "done" })
  ELSE LET nxt == UNION { UNION { { [st |-> n.st, ps |-> [x.ps EXCEPT ![i] = n.p]] : n \in Step(x.st, x.ps[i]) }
                                  : i \in DOMAIN x.ps } : x \in todo }
           new == TLCEval(nxt \ seen)
       IN RunAll(new, TLCEval(seen \cup new), crash)
Runs(st, ps, crash) == LET s == {[st |-> st, ps |-> ps]} IN RunAll(s, s, crash)

After(S, l) ==
  CASE l.op = "adv" -> { [st EXCEPT !.now = @ + l.d] : st \in S }
    [] l.op = "srv" -> { [st EXCEPT !.srv[l.url] = [mode |-> l.mode, tag |-> l.tag]] : st \in S }
    [] l.op = "wipe" -> { [st EXCEPT !.con = [u \in DOMAIN @ |-> ""], !.ts = [u \in DOMAIN @ |-> -1]] : st \in S }
    [] l.op = "par" ->
         UNION { { x.st : x \in { y \in Runs(st, [i \in 1..Len(l.par) |-> Proc(l.par[i].url, TRUE)], TRUE) :
                   \A i \in 1..Len(l.par) :
                     IF l.par[i].res = "crashed" THEN TRUE
                     ELSE y.ps[i].pc = "done" /\ y.ps[i].res = l.par[i].res /\ y.ps[i].req = l.par[i].req } } : st \in S }
    [] OTHER -> UNION { { x.st : x \in { y \in Runs(st, << Proc(l.url, l.space) >>, l.res = "crashed") :
                           l.res = "crashed" \/ (y.ps[1].res = l.res /\ y.ps[1].req = l.req) } } : st \in S }

RECURSIVE Walk(_, _, _)
Walk(lines, i, S) ==     \* the first line not explained, 0 if there is none
  IF i > Len(lines) THEN 0
  ELSE LET T == TLCEval(After(S, lines[i])) IN IF T = {} THEN i ELSE Walk(lines, i + 1, T)
Urls(lines) == LET s == { i \in 1..Len(lines) : lines[i].op \in {"srv", "get"} } IN { lines[i].url : i \in s }
                 \cup UNION { { lines[i].par[j].url : j \in 1..Len(lines[i].par) } : i \in { k \in 1..Len(lines) : lines[k].op = "par" } }
Bad(r) == Walk(r.lines, 1, {Empty(Urls(r.lines), 1700000000)})

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == Bad(Recs[i]) IN IF f = 0 THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, line |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
