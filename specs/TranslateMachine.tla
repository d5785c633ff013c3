-------------------------- MODULE TranslateMachine --------------------------
(* Filling in a translation as a machine that reads the translation token   *)
(* by token.  TLC visits every translation of at most MAXTOK tokens; every  *)
(* complete one is printed and replayed into the real code.                 *)
EXTENDS Translate, Json, IOUtils
MAXTOK == atoi(IOEnv.MAXTOK)
Tokens == {"{}", "{0}", "{1}", "{2}", "{{", "}}", "{", "}", "a", "{x}"}
Tmpl == "%s is %r, not %d"
Args == << "p", "q w", "7" >>
Message == "p is q w, not 7"

VARIABLES t, out, mode, next, failed
vars == << t, out, mode, next, failed >>
Init == t = << >> /\ out = "" /\ mode = "" /\ next = 1 /\ failed = FALSE

Read(k) ==
  /\ Len(t) < MAXTOK
  /\ t' = Append(t, k)
  /\ CASE k \in {"{{", "}}"} -> out' = out \o Ch(k, 1) /\ UNCHANGED << mode, next, failed >>
       [] k = "a" -> out' = out \o k /\ UNCHANGED << mode, next, failed >>
       [] k = "{}" -> IF mode = "manual" \/ next > 3 THEN failed' = TRUE /\ UNCHANGED << out, mode, next >>
                      ELSE out' = out \o Args[next] /\ next' = next + 1 /\ mode' = "auto" /\ UNCHANGED failed
       [] k \in {"{0}", "{1}", "{2}"} ->
            IF mode = "auto" THEN failed' = TRUE /\ UNCHANGED << out, mode, next >>
            ELSE out' = out \o Args[Num(Ch(k, 2), 0) + 1] /\ mode' = "manual" /\ UNCHANGED << next, failed >>
       [] OTHER -> failed' = TRUE /\ UNCHANGED << out, mode, next >>
Next == \E k \in Tokens : Read(k)
Spec == Init /\ [][Next]_vars

(* braces may join across tokens ("{" "{"); the machine is about templates where they do not *)
Ambiguous == \E i \in 1..(Len(t) - 1) : {Ch(t[i], Len(t[i])), Ch(t[i+1], 1)} \in {{"{"}, {"}"}} \/ t[i] = "{"
Text == Join(t, "")
MachineIsOperators ==
  ~Ambiguous =>
    LET f == Format(Text, Args) IN f.ok = ~failed /\ (f.ok => f.s = out)
(* what a user sees is never partly filled in *)
NeverPartly == Ambiguous \/ Texts(Tmpl, Message, Text, << >>) = {IF failed THEN Text ELSE out}
Emit == PrintT("CASE " \o ToJson([tmpl |-> Tmpl, text |-> Message, t |-> Text]))
=============================================================================
