-------------------------- MODULE AntiUnifyMachine --------------------------
(* Every pair of small fragments: the core fits both, and no core has fewer holes. *)
EXTENDS AntiUnify, Json

Leaf(s) == [t |-> "leaf", s |-> s]
Name(s) == [t |-> "node", c |-> "Name", k |-> << [t |-> "name", s |-> s] >>]
Atoms == { Name("x"), Name("y") } \cup { [t |-> "node", c |-> "Const", k |-> << Leaf(s) >>] : s \in {"1", "2"} }
Exprs ==
  Atoms \cup { [t |-> "node", c |-> "BinOp", k |-> << a, Leaf(op), b >>] : a \in Atoms, op \in {"+", "-"}, b \in Atoms }
        \cup { [t |-> "node", c |-> "Call", k |-> << Name("x"), [t |-> "list", k |-> args] >>] : args \in { << >> } \cup { << a >> : a \in Atoms } \cup { << a, Name("y") >> : a \in Atoms } }
Stmts == { [t |-> "node", c |-> "Assign", k |-> << [t |-> "node", c |-> "AssignName", k |-> << [t |-> "name", s |-> v] >>], e >>] : v \in {"x", "y"}, e \in Exprs }
         \cup { [t |-> "node", c |-> "Expr", k |-> << e >>] : e \in Exprs }

VARIABLES a, b
Init == a \in Stmts /\ b \in Stmts
Next == UNCHANGED << a, b >>
Spec == Init /\ [][Next]_<< a, b >>

Fs == << a, b >>
Fits ==
  LET c == TLCEval(Core(Fs, << >>)) IN
  /\ \A f \in 1..2 : Fill(c, [ h \in Holes(c) |-> Sub(Fs[f], h) ]) = Fs[f]
  /\ \A h \in Holes(c) : Sub(a, h) # Sub(b, h)
  /\ a = b <=> Holes(c) = {}
Emit == PrintT("CASE " \o ToJson([a |-> a, b |-> b]))
=============================================================================
