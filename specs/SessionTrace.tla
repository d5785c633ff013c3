----------------------------- MODULE SessionTrace -----------------------------
(* Judges recorded sessions: record = [steps]; a step is a check            *)
(* [key, found, fresh, ones, left]: what it found, what the same check finds *)
(* in a fresh process, what checks of the files one by one find in fresh    *)
(* processes (a sequence per file), and whether the process' standard       *)
(* streams and directory are as they were.  found = << "none" >> when the   *)
(* check failed.                                                            *)
EXTENDS Session, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

RECURSIVE Flat(_)
Flat(qs) == IF qs = << >> THEN << >> ELSE Head(qs) \o Flat(Tail(qs))
Rng(q) == { q[i] : i \in 1..Len(q) }
Count(q, v) == Cardinality({ i \in 1..Len(q) : q[i] = v })
SameBag(p, q) == Len(p) = Len(q) /\ \A v \in Rng(p) : Count(p, v) = Count(q, v)

Fails(r) ==
  UNION { LET s == r.steps[k] IN
      (IF s.left THEN {} ELSE {"streams-or-directory"})
      \cup (IF s.found # s.fresh THEN {"history"} ELSE {})
      \cup (IF s.ones # << >> /\ ~SameBag(s.found, Flat(s.ones)) THEN {"together"} ELSE {})
    : k \in 1..Len(r.steps) }
  \cup (IF \E i, j \in 1..Len(r.steps) : r.steps[i].key = r.steps[j].key /\ r.steps[i].found # r.steps[j].found
        THEN {"repeated"} ELSE {})

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == TLCEval(Fails(Recs[i])) IN
  IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
