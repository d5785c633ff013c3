------------------------------- MODULE DefUse -------------------------------
(* What parts of programs do to variables, and which write a read sees.         *)
(* A tree says in what ways a part may be evaluated:                             *)
(*   [k: acc, op, v, e]: operation r (read), w (write), m (modify), d (delete)    *)
(*     on variable v; e: its event                                              *)
(*   [k: seq, ts] one after another     [k: alt, ts] one of them                 *)
(*   [k: opt, t] perhaps                [k: rep, t] any number of times          *)
EXTENDS Flow

RECURSIVE Ways(_), WaysAll(_)
Together(A, B) == { a \o b : a \in A, b \in B }
Ways(t) ==
  CASE t.k = "acc" -> { << t >> }
    [] t.k = "seq" -> WaysAll(t.ts)
    [] t.k = "alt" -> UNION { Ways(t.ts[i]) : i \in 1..Len(t.ts) }
    [] t.k = "opt" -> { << >> } \cup Ways(t.t)
    [] t.k = "rep" -> LET w == TLCEval(Ways(t.t)) IN { << >> } \cup w \cup Together(w, w)
WaysAll(ts) == IF ts = << >> THEN { << >> } ELSE LET a == TLCEval(Ways(ts[1]))  b == TLCEval(WaysAll(Tail(ts))) IN Together(a, b)

(* last: for each variable the event that last wrote it, or 0                    *)
Effect(x, last) == IF x.op \in {"w", "m"} THEN [last EXCEPT ![x.v] = x.e] ELSE IF x.op = "d" THEN [last EXCEPT ![x.v] = 0] ELSE last
RECURSIVE After(_, _)
After(way, last) == IF way = << >> THEN last ELSE After(Tail(way), Effect(way[1], last))

(* the pairs of an event that uses a variable and the one that last wrote it      *)
RECURSIVE Seen(_, _)
Seen(way, last) ==
  IF way = << >> THEN {}
  ELSE (IF way[1].op \in {"r", "m"} /\ last[way[1].v] # 0 THEN { [use |-> way[1].e, def |-> last[way[1].v]] } ELSE {})
       \cup Seen(Tail(way), Effect(way[1], last))

(* an exception may arise before any operation, but not between or after the       *)
(* assignments of names that come last                                          *)
RECURSIVE Trunk(_)
Trunk(way) == IF way # << >> /\ way[Len(way)].op = "w" THEN Trunk(SubSeq(way, 1, Len(way) - 1)) ELSE way
Broken(way) == LET t == Trunk(way) IN { SubSeq(t, 1, n) : n \in 0..Len(t) }

(* a step on to s with the last writes known; pt was reached by executing a        *)
Normal(N, pt, K, last, way) ==
  IF pt.k = "item"
  THEN { << s, After(way, last) >> : s \in Go(N, PushSeq(N[pt.n].body, Push([t |-> "loop", n |-> pt.n], K))) }
       \cup { << s, last >> : s \in Go(N, PushSeq(N[pt.n].orelse, K)) }
  ELSE { << s, After(way, last) >> : s \in Onwards(N, pt, K) }
Failed(N, K, last, way) == { << s, After(p, last) >> : s \in Raised(N, K), p \in Broken(way) }
=============================================================================
