--------------------------- MODULE RemoteCacheHist ---------------------------
(* All histories of MAXOPS operations, printed to be replayed.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
MAXOPS == atoi(IOEnv.MAXOPS)
Ops == { [op |-> "get", u |-> "a"], [op |-> "publish", u |-> "a"], [op |-> "down", u |-> "a"], [op |-> "get", u |-> "b"], [op |-> "publish", u |-> "b"],
         [op |-> "adv", d |-> 299], [op |-> "adv", d |-> 1], [op |-> "adv", d |-> 719700], [op |-> "crash", u |-> "a"] }
VARIABLE h
Init == h = << >>
(* passing time twice or changing the server without anyone looking adds nothing new *)
Next == /\ Len(h) < MAXOPS
        /\ \E o \in Ops : (h # << >> => ~(h[Len(h)].op \in {"down"} /\ o.op = "down")) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Useful == \E i \in 1..Len(h) : h[i].op = "get"
Emit == (Len(h) = MAXOPS /\ Useful /\ h[MAXOPS].op = "get") => PrintT("CASE " \o ToJson(h))
=============================================================================
