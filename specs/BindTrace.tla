------------------------------ MODULE BindTrace ------------------------------
(* record = [ss, os, ds, groups: Seq([occs: Seq(index of os), seen: Seq(scope), *)
(*           python: Seq(scope)])]                                              *)
(* seen: the scopes to which the code attributed the occurrences of the group   *)
(* (those of one name on one line, alike); python: what Python's own compiler   *)
(* says, if known (<< -1 >> otherwise).                                         *)
EXTENDS Bind, Integers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

Els(s) == { s[i] : i \in 1..Len(s) }

(* every occurrence of the group is attributed as it may be, and nothing else *)
GroupOK(p, r, g, seen) ==
  LET may == [ k \in Els(g.occs) |-> Attribution(p, r.os[k]) ] IN
  /\ \A k \in DOMAIN may : None \in may[k] \/ may[k] \cap seen # {}
  /\ \A s \in seen : \E k \in DOMAIN may : s \in may[k]

Fails(r) ==
  LET p == TLCEval(Program(r.ss, r.os, r.ds)) IN
  { k \in 1..Len(r.groups) : ~GroupOK(p, r, r.groups[k], Els(r.groups[k].seen)) }
Wrong(r) ==   \* the specification differs from Python itself
  LET p == TLCEval(Program(r.ss, r.os, r.ds)) IN
  { k \in 1..Len(r.groups) :
      r.groups[k].python # << -1 >> /\ ~GroupOK(p, r, r.groups[k], Els(r.groups[k].python) \ {None}) }

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) ==
  LET f == TLCEval(Fails(Recs[i]))
      w == TLCEval(Wrong(Recs[i])) IN
  /\ (IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f])))
  /\ (IF w = {} THEN TRUE ELSE PrintT("SPEC " \o ToJson([i |-> i, fails |-> w])))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
==============================================================================
