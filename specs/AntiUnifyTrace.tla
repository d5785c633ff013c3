--------------------------- MODULE AntiUnifyTrace ---------------------------
(* Recorded generalizations: record =                                           *)
(* [frs: Seq(term), core: term, subs: for each hole the Seq of its values,          *)
(*  strict: names were to correspond one to one, none: there is no generalization,   *)
(*  after: for each fragment the names of its variables that are used after it,      *)
(*  before: for each the pairs (name, scope) of those that have a value before it,    *)
(*  nested: pairs of scopes, one of which is in the other or the same]               *)
EXTENDS AntiUnify, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE n
Stride == 64
Init == n \in 1..Stride /\ n <= Len(Recs)
Next == n + Stride <= Len(Recs) /\ n' = n + Stride
Spec == Init /\ [][Next]_n

Els(s) == { s[i] : i \in 1..Len(s) }
Fs == Recs[n].frs
Renamed == Differ(Recs[n].core, Fs, Recs[n].subs)

ScopesOf(f, name) == { b[2] : b \in { b \in Els(Recs[n].before[f]) : b[1] = name } }
Together(tuple) ==
  \E f, g \in 1..Len(Fs) : f # g /\ \E s \in ScopesOf(f, tuple[f]), t \in ScopesOf(g, tuple[g]) : << s, t >> \in Els(Recs[n].nested)

Wrong ==
  IF Recs[n].none THEN
    IF Recs[n].strict THEN {} ELSE {"there is no generalization"}
  ELSE LET ren == TLCEval(Renamed) IN
    IF << >> \in ren THEN {"filled holes do not give the fragments"}
    ELSE (IF Needless(Recs[n].core, Fs) # {} THEN {"a hole where all values are the same"} ELSE {})
         \cup (IF \E t \in ren : ~Everywhere(t, Fs) THEN {"variables unified though they differ elsewhere"} ELSE {})
         \cup (IF \E t \in ren : \E f \in 1..Len(Fs) : t[f] \in Els(Recs[n].after[f]) THEN {"variables unified though used afterwards"} ELSE {})
         \cup (IF \E t \in ren : Together(t) THEN {"variables unified though both have a value before"} ELSE {})
         \cup (IF Recs[n].strict /\ \E t, o \in NameTuples(Fs) : t # o /\ \E f \in 1..Len(Fs) : t[f] = o[f] THEN {"names do not correspond one to one"} ELSE {})
Good == \A w \in Wrong : PrintT("BAD " \o ToJson([i |-> n, what |-> w]))
=============================================================================
