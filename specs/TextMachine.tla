----------------------------- MODULE TextMachine -----------------------------
(* Files as editors and broken tools leave them: all short sequences of       *)
(* fragments.  The state keeps the text and the lengths of its lines as they  *)
(* grow; Lens is what a position has to lie within.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Max == atoi(IOEnv.MAXARGS)
(* name |-> [columns before its end of line, ends a line?]; the texts are in   *)
(* checks/l07.py                                                              *)
Frag == [
  assign |-> [w |-> 5, e |-> TRUE],
  crlf |-> [w |-> 5, e |-> TRUE],
  open |-> [w |-> 9, e |-> TRUE],
  body |-> [w |-> 12, e |-> TRUE],
  tab |-> [w |-> 10, e |-> TRUE],
  blank |-> [w |-> 3, e |-> TRUE],
  noeol |-> [w |-> 6, e |-> FALSE],
  close |-> [w |-> 1, e |-> FALSE],
  text |-> [w |-> 6, e |-> TRUE],
  cont |-> [w |-> 9, e |-> TRUE],
  uni |-> [w |-> 8, e |-> TRUE],
  loop |-> [w |-> 16, e |-> TRUE],
  cond |-> [w |-> 19, e |-> TRUE],
  bad |-> [w |-> 5, e |-> TRUE],
  noqa |-> [w |-> 17, e |-> TRUE] ]

VARIABLES frags, lens
vars == << frags, lens >>

Init == frags = << >> /\ lens = << 0 >>
Add(f) ==
  /\ frags' = Append(frags, f)
  /\ LET l == [ lens EXCEPT ![Len(lens)] = @ + Frag[f].w ]
     IN lens' = IF Frag[f].e THEN Append(l, 0) ELSE l
Next == Len(frags) < Max /\ \E f \in DOMAIN Frag : Add(f)
Spec == Init /\ [][Next]_vars

LinesGrow == Len(lens) = 1 + Cardinality({ i \in 1..Len(frags) : Frag[frags[i]].e })
Emit == PrintT("FILE " \o ToJson([frags |-> frags, lens |-> lens]))
=============================================================================
