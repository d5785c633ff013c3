---------------------------- MODULE DefUseTrace ----------------------------
(* All executions of programs against the definitions and uses that the code     *)
(* connects.                                                                    *)
(* record = [nodes, raises, units: Seq([body, args, vars: their number]),         *)
(*   trees: Seq(the tree of atom a, or [k |-> "seq", ts |-> << >>]),              *)
(*   defs: Seq(Seq(event)): what the code takes for the definitions of an event]   *)
EXTENDS DefUse, Integers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
WaysOf == [ i \in 1..Len(Recs) |-> [ x \in 1..Len(Recs[i].trees) |-> Ways(Recs[i].trees[x]) ] ]
VARIABLES prog, unit, a, pt, K, last
vars == << prog, unit, a, pt, K, last >>
R == Recs[prog]
Els(s) == { s[i] : i \in 1..Len(s) }

Init ==
  /\ prog \in 1..Len(Recs)
  /\ unit \in 1..Len(Recs[prog].units)
  /\ a = (IF Recs[prog].units[unit].args = 0 THEN -1 ELSE Recs[prog].units[unit].args)
  /\ pt = Pt("start", 0, 0)
  /\ K = << SeqFrame(Recs[prog].units[unit].body) >>
  /\ last = [ v \in 1..Recs[prog].units[unit].vars |-> 0 ]

MyWays == IF a > 0 THEN WaysOf[prog][a] ELSE { << >> }
Next ==
  \E way \in MyWays :
    \E n \in Normal(R.nodes, pt, K, last, way) \cup (IF a > 0 /\ R.raises[a] THEN Failed(R.nodes, K, last, way) ELSE {}) :
      a' = n[1].a /\ pt' = n[1].pt /\ K' = n[1].K /\ last' = n[2] /\ UNCHANGED << prog, unit >>
Spec == Init /\ [][Next]_vars

Pairs == UNION { Seen(way, last) : way \in MyWays }
Connected == \A p \in Pairs : p.def \in Els(R.defs[p.use]) \/ PrintT("BAD " \o ToJson([i |-> prog, use |-> p.use, def |-> p.def]))
(* pairs, to be compared with those of programs running in Python *)
Told == Pairs = {} \/ PrintT("PAIR " \o ToJson([i |-> prog, pairs |-> Pairs]))
=============================================================================
