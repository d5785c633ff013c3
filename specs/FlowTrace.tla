------------------------------ MODULE FlowTrace ------------------------------
(* All executions of programs against the graphs that the code builds.         *)
(* record = [nodes, raises,                                                    *)
(*   units: Seq([body, args: atom or 0, ends: does its end matter?]),           *)
(*   succ: Seq(Seq(atom)): the recorded edges between atoms (0: the end),       *)
(*   first: Seq(Seq(atom)): where the graph of a unit starts,                   *)
(*   dead: Seq(atom): reported as unreachable,                                  *)
(*   after, before: Seq(Seq(atom)): what the code iterates over as reachable    *)
(*     from an atom, and as leading to it,                                      *)
(*   stops: Seq([a, stop, seen]): what it iterates over if told to stop at stop] *)
EXTENDS Flow, Integers, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLES prog, unit, a, pt, K
vars == << prog, unit, a, pt, K >>
R == Recs[prog]
U == R.units[unit]
Els(s) == { s[i] : i \in 1..Len(s) }

Init ==
  /\ prog \in 1..Len(Recs)
  /\ unit \in 1..Len(Recs[prog].units)
  /\ a = -1 /\ pt = Pt("start", 0, 0)
  /\ K = << SeqFrame(Recs[prog].units[unit].body) >>

Possible == Next1(R.nodes, R.raises, a, pt, K)
Next == \E s \in Possible : a' = s.a /\ pt' = s.pt /\ K' = s.K /\ UNCHANGED << prog, unit >>
Spec == Init /\ [][Next]_vars

(* ---- the graph has every step ---- *)
HasStep(s) ==
  \/ s.a = End /\ ~U.ends
  \/ IF a = -1
     THEN IF U.args # 0 THEN Els(R.first[unit]) = {U.args} /\ s.a \in Els(R.succ[U.args])
          ELSE s.a \in Els(R.first[unit])
     ELSE s.a \in Els(R.succ[a])
Alive(s) == s.a = End \/ s.a \notin Els(R.dead)
StepsThere ==
  \A s \in Possible :
    /\ HasStep(s) \/ PrintT("BAD " \o ToJson([i |-> prog, from |-> a, to |-> s.a, what |-> "step"]))
    /\ Alive(s) \/ PrintT("BAD " \o ToJson([i |-> prog, from |-> a, to |-> s.a, what |-> "unreachable"]))

(* ---- what the code iterates over is what the edges say ---- *)
RECURSIVE Closure(_, _, _)
Closure(E, S, stop) ==
  LET T == S \cup UNION { IF x = End \/ x = stop THEN {} ELSE Els(E[x]) : x \in S } IN
  IF T = S THEN S ELSE Closure(E, T, stop)
After(E, x, stop) == Closure(E, Els(E[x]), stop) \ {End}
IteratesRight(r) ==
  LET reach == TLCEval([ y \in 1..Len(r.succ) |-> After(r.succ, y, -2) ]) IN
  \A x \in 1..Len(r.succ) :
    /\ Els(r.after[x]) = reach[x] \/ PrintT("BAD " \o ToJson([i |-> prog, from |-> x, to |-> 0, what |-> "successors"]))
    /\ Els(r.before[x]) = { y \in 1..Len(r.succ) : x \in reach[y] }
         \/ PrintT("BAD " \o ToJson([i |-> prog, from |-> x, to |-> 0, what |-> "predecessors"]))
StopsRight(r) ==
  \A j \in 1..Len(r.stops) :
    LET q == r.stops[j] IN
    Els(q.seen) = After(r.succ, q.a, q.stop) \ {q.stop}
      \/ PrintT("BAD " \o ToJson([i |-> prog, from |-> q.a, to |-> q.stop, what |-> "successors up to"]))
Iterates == (a = -1 /\ unit = 1) => (IteratesRight(R) /\ StopsRight(R))

(* ---- steps, to be compared with those of programs running in Python ---- *)
Told == (a > 0) => PrintT("STEP " \o ToJson([i |-> prog, a |-> a, to |-> { s.a : s \in Possible }]))
==============================================================================
