---------------------------- MODULE SuggestTrace ----------------------------
(* Judges recorded suggestions: for each one that does not keep its promise it   *)
(* prints BAD with an environment, and VACUOUS if no environment decides it.      *)
(* py: Seq([e or block, env: Seq([n, v]), want]): what Python computed, which     *)
(* MiniPy has to agree with (SPEC otherwise).                                     *)
EXTENDS Suggest, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Result(r) ==
  LET envs == TLCEval(Envs(r))
      vs == TLCEval([ env \in envs |-> Holds(r, env) ])
      bad == TLCEval({ env \in envs : vs[env] = "bad" })
  IN [ bad |-> bad # {} \/ ~StaticOK(r),
       env |-> IF bad = {} THEN [any |-> "any"] ELSE ShowEnv(CHOOSE e \in bad : TRUE),
       vacuous |-> \A env \in envs : vs[env] = "skip",
       py |-> { k \in 1..Len(r.py) : PyWrong(r.py[k]) } ]
(* \E binds the result to a value, where a LET would compute it again at each use *)
Judge(i) ==
  \E res \in { Result(Recs[i]) } :
    /\ (IF res.bad THEN PrintT("BAD " \o ToJson([i |-> i, env |-> res.env]))
        ELSE IF res.vacuous THEN PrintT("VACUOUS " \o ToJson([i |-> i])) ELSE TRUE)
    /\ (IF res.py = {} THEN TRUE ELSE PrintT("SPEC " \o ToJson([i |-> i, fails |-> res.py])))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
