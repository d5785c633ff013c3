--------------------------- MODULE PositionsTrace ---------------------------
(* record = [end, gaveup, plain, lens, probs: Seq([code,line,col,el,ec])]    *)
EXTENDS Positions, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

Fails(r) ==
  (IF r.end = "result" THEN {} ELSE {r.end})
  \cup (IF Crashed(r) THEN {"crash"} ELSE {})
  \cup UNION { (IF PositionOK(r.lens, r.probs[i]) THEN {} ELSE {"position " \o r.probs[i].code})
               \cup (IF EndOK(r.lens, r.probs[i]) THEN {} ELSE {"end " \o r.probs[i].code}) : i \in 1..Len(r.probs) }

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == TLCEval(Fails(Recs[i])) IN
  IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
