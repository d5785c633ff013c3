------------------------------ MODULE LoopTrace ------------------------------
(* Judges recorded claims about loops: BAD for one that is not true, VACUOUS if    *)
(* no execution decides it, SPEC where MiniPy and Python differ.                  *)
EXTENDS Loops, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

Result(r) ==
  LET envs == TLCEval(Envs(r))
      vs == TLCEval([ env \in envs |-> Claim(r, env) ])
      bad == TLCEval({ env \in envs : vs[env] = "bad" })
      shown == r.code \in Some /\ \E env \in envs : vs[env] = "ok"
  IN [ bad |-> bad # {} /\ ~shown,
       env |-> IF bad = {} THEN [any |-> "any"] ELSE ShowEnv(CHOOSE e \in bad : TRUE),
       vacuous |-> \A env \in envs : vs[env] = "skip",
       py |-> { k \in 1..Len(r.py) : PyWrong(r.py[k]) } ]
Judge(i) ==
  \E res \in { Result(Recs[i]) } :
    /\ (IF res.bad THEN PrintT("BAD " \o ToJson([i |-> i, env |-> res.env]))
        ELSE IF res.vacuous THEN PrintT("VACUOUS " \o ToJson([i |-> i])) ELSE TRUE)
    /\ (IF res.py = {} THEN TRUE ELSE PrintT("SPEC " \o ToJson([i |-> i, fails |-> res.py])))
Init == pos \in 1..Stride /\ pos <= Len(Recs)
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
