----------------------------- MODULE FlowMachine -----------------------------
(* All small programs over the statements of Flow.tla, as tokens:              *)
(*   s return raise break continue pass                                        *)
(*   if while for with try match open a block, "." ends the statement          *)
(*   else except (a class) exceptall finally case guarded default              *)
(* Blocks without a statement get one when rendered.                           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Max == atoi(IOEnv.MAXTOK)
(* frames of the stack: [k: kind, p: part]                                     *)
VARIABLES toks, stack
vars == << toks, stack >>

Top == stack[Len(stack)]
InLoop == \E i \in 1..Len(stack) : stack[i].k \in {"while", "for"} /\ stack[i].p = "body"
(* the block has ended with a jump *)
Jumped == toks # << >> /\ toks[Len(toks)] \in {"return", "raise", "break", "continue"}
Put(t) == toks' = Append(toks, t)

Simple == /\ ~Jumped
          /\ \E t \in {"s", "return", "raise"} \cup (IF InLoop THEN {"break", "continue"} ELSE {}) : Put(t)
          /\ UNCHANGED stack
Open == /\ ~Jumped
        /\ \E t \in {"if", "while", "for", "with", "try", "match"} :
             Put(t) /\ stack' = Append(stack, [k |-> t, p |-> IF t = "match" THEN "subject" ELSE "body"])
Part(new, t) == Put(t) /\ stack' = [stack EXCEPT ![Len(stack)].p = new]
Switch ==
  /\ Len(stack) > 0
  /\ LET f == Top IN
     \/ f.k \in {"if", "while", "for"} /\ f.p = "body" /\ Part("else", "else")
     \/ f.k = "try" /\ f.p \in {"body", "except"} /\ Part("except", "except")
     \/ f.k = "try" /\ f.p \in {"body", "except"} /\ Part("exceptall", "exceptall")
     \/ f.k = "try" /\ f.p \in {"except", "exceptall"} /\ Part("else", "else")
     \/ f.k = "try" /\ f.p # "finally" /\ Part("finally", "finally")
     \/ f.k = "match" /\ f.p \in {"subject", "case"} /\ (Part("case", "case") \/ Part("case", "guarded") \/ Part("default", "default"))
Complete(f) == (f.k = "try" => f.p # "body") /\ (f.k = "match" => f.p # "subject")
Close == Len(stack) > 0 /\ Complete(Top) /\ Put(".") /\ stack' = SubSeq(stack, 1, Len(stack) - 1)

Init0 == toks = << >> /\ stack = << >>
Next == Len(toks) < Max /\ (Simple \/ Open \/ Switch \/ Close)
Spec == Init0 /\ [][Next]_vars

Nested == \A i \in 1..Len(stack) : stack[i].k \in {"if", "while", "for", "with", "try", "match"}
(* programs that end with something other than closing, and are complete        *)
Emit == ((\A i \in 1..Len(stack) : Complete(stack[i])) /\ toks # << >> /\ toks[Len(toks)] # ".") =>
          PrintT("CASE " \o ToJson([toks |-> toks]))
==============================================================================
