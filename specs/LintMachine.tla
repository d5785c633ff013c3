----------------------------- MODULE LintMachine -----------------------------
(* A check as a state machine: the linters report messages one after        *)
(* another, in any order; then the messages are weeded out, filtered,       *)
(* reworded and put in order one at a time, the way a reader would do it by *)
(* hand.  The declarative laws of Lint must hold in every final state.      *)
EXTENDS Lint, Json, IOUtils

MaxMsgs == atoi(IOEnv.MAXARGS)
Profile == IOEnv.PROFILE

AllCodes == DOMAIN Overriders \cup UNION { Overriders[c] : c \in DOMAIN Overriders }
Src(c) == IF c \in {"F841", "E225", "F401", "E712"} THEN "flake8" ELSE "pylint"
Txt(c) == CASE c = "C0104" -> "Disallowed name \"x\"" [] OTHER -> "text of " \o c
Msg(file, line, col, c, t) ==
  [src |-> Src(c), file |-> file, line |-> line, col |-> col, code |-> c,
   symbol |-> IF Src(c) = "flake8" THEN "<null>" ELSE "s" \o c, text |-> t, el |-> 0 - 1, ec |-> 0 - 1]

Q(p, n) == p \o "'" \o n \o "'"
Alphabet ==
  CASE Profile = "overrides" ->
         { Msg(pl[1], pl[2], 0, c, Txt(c)) : pl \in { <<"/R/w/a.py", 1>>, <<"/R/w/a.py", 2>>, <<"/R/w/b.py", 1>> }, c \in AllCodes }
    [] Profile = "chains" ->
         { Msg(pl[1], pl[2], 0, c, Txt(c)) : pl \in { <<"/R/w/a.py", 1>>, <<"/R/w/a.py", 2>>, <<"/R/w/b.py", 1>> },
                                             c \in { "R6213", "R6216", "R6211", "C0104", "F841", "W0107" } }
    [] Profile = "order" ->
         { Msg(f, l, k, "W0101", "t") : f \in { "/R/w/a.py", "/R/w/B.py", "/R/w/a/z.py", "/R/w/ab.py", "/R/other/c.py" },
                                        l \in { 1, 2, 10 }, k \in { 0, 1 } }
    [] Profile = "tweaks" ->
         { Msg("/R/w/a.py", 1, 0, "C0104", "Disallowed name \"" \o n \o "\"") : n \in { "i", "j", "I", "foo", "ij" } }
         \cup { Msg("/R/w/a.py", 1, 0, "W0622", Q("Redefining built-in ", n)) : n \in { "sum", "len", "su", "Len" } }
         \cup { Msg("/R/w/a.py", 2, 0, "F401", n \o " imported but unused") : n \in { "'ib111'", "'ib111.week_01'", "'ib111 as q'", "'os'", "'os.ib111'", "'i'" } }
         \cup { Msg("/R/w/a.py", 2, 0, "R6607", "Use exponentiation instead of repeated muliplication in " \o n) :
                  n \in { "a * a.", "a * a * a.", "s.x * s.x * s.x.", "a + a + a.", "a.b + a.b." } }
         \cup { Msg("/R/w/a.py", 3, 0, "C0325", "Unnecessary parens after " \o n \o " keyword") : n \in { "'not'", "'if'", "'return'", "'notin'" } }
         \cup { Msg("/R/w/a.py", 3, 0, "E712", "comparison to True should be 'if cond is True:' or 'if cond:'"),
                Msg("/R/w/a.py", 3, 0, "E712", "comparison to False should be 'if cond is False:' or 'if not cond:'"),
                Msg("/R/w/a.py", 3, 0, "C0103", "Disallowed name \"i\""), Msg("/R/w/a.py", 3, 0, "F811", "'ib111' imported but unused") }

T(n, v) == [n |-> n, h |-> TRUE, v |-> v]
Cmds == IF Profile # "tweaks" THEN { << T("config", "empty") >> }
        ELSE { << T("config", "empty") >> \o s : s \in
                 { << >>, << T("allowed-onechar-names", "ij"), T("set-groups", "enhancement") >>,
                   << T("allowed-onechar-names", ""), T("disallowed-builtin-names", "sum,len") >>,
                   << T("disallowed-builtin-names", "len"), T("set-groups", "python-specific,enhancement"), T("allowed-onechar-names", "I") >> } }
Argvs == IF Profile # "order" THEN { << [abs |-> "/R/w/a.py", rel |-> TRUE, s |-> "a.py"], [abs |-> "/R/w/b.py", rel |-> TRUE, s |-> "b.py"] >> }
         ELSE { << [abs |-> "/R", rel |-> FALSE, s |-> "/R"] >>,
                << [abs |-> "/R/other", rel |-> TRUE, s |-> "../other"], [abs |-> "/R/w", rel |-> TRUE, s |-> "."] >>,
                << [abs |-> "/R/w/ab.py", rel |-> FALSE, s |-> "/R/w/ab.py"], [abs |-> "/R/w/a", rel |-> TRUE, s |-> "a"],
                   [abs |-> "/R/w/B.py", rel |-> TRUE, s |-> "../w/B.py"], [abs |-> "/R/w/a.py", rel |-> TRUE, s |-> "./a.py"], [abs |-> "/R/other", rel |-> FALSE, s |-> "/R/other"] >> }

FileNames == IF Profile = "order" THEN << "/R/w/a.py", "/R/w/B.py", "/R/w/a/z.py", "/R/w/ab.py", "/R/other/c.py" >> ELSE << "/R/w/a.py", "/R/w/b.py" >>
Case(cmd, argv) ==
  [cwd |-> "/R/w", cmd |-> cmd, argv |-> argv, args |-> << >>, cfgs |-> << >>,
   files |-> [ i \in 1..Len(FileNames) |-> [p |-> FileNames[i], py |-> TRUE, lines |-> << >>] ]]
Pack == << [p |-> "empty", ok |-> TRUE, e |-> << >>] >>

VARIABLES case, found, codes, left, result
vars == << case, found, codes, left, result >>
(* codes: per place the codes seen there; left: messages still to go through; result: in order *)
Init ==
  /\ case \in { Case(c, a) : c \in Cmds, a \in Argvs }
  /\ found = << >> /\ codes = << >> /\ left = -1 /\ result = << >>
Place(m) == << m.file, m.line >>
Report(m) ==
  /\ left = -1 /\ Len(found) < MaxMsgs
  /\ found' = Append(found, m)
  /\ codes' = (Place(m) :> ((IF Place(m) \in DOMAIN codes THEN codes[Place(m)] ELSE {}) \cup {m.code})) @@ codes
  /\ UNCHANGED << case, left, result >>
StartWeeding == left = -1 /\ left' = Len(found) /\ UNCHANGED << case, found, codes, result >>

val == Resolve([case EXCEPT !.cfgs = Pack], case.files[1]).val
Named(m) == [ k \in DOMAIN m \cup {"path"} |-> IF k = "path" THEN NameOf(case.argv, case.cwd, m.file) ELSE m[k] ]
RECURSIVE Insert(_, _)
Insert(q, p) == IF q = << >> THEN << p >>
                ELSE IF Precedes(case.argv, p, Head(q)) THEN << p >> \o q
                ELSE << Head(q) >> \o Insert(Tail(q), p)
(* the last message not yet considered; equal ones keep the order in which they were found *)
Weed ==
  /\ left > 0
  /\ LET m == found[left]
         keep == OverridersOf(m.code) \cap codes[Place(m)] = {} /\ Keep(m, val) = {TRUE}
     IN result' = IF keep THEN Insert(result, [Named(m) EXCEPT !.text = Text(m)]) ELSE result
  /\ left' = left - 1
  /\ UNCHANGED << case, found, codes >>
Next == (\E m \in Alphabet : Report(m)) \/ StartWeeding \/ Weed
Spec == Init /\ [][Next]_vars

Final == left = 0
(* ---- laws ---- *)
Same(m, p) == Fields(m, NameOf(case.argv, case.cwd, m.file)) = Got(p)
ExactlyTheRest == Final =>
  \A i \in 1..Len(found) :
    LET in == ~Overridden(found[i], found) /\ TRUE \in Keep(found[i], val)
    IN (\E j \in 1..Len(result) : Same(found[i], result[j])) <=> in
NothingInvented == Final => \A j \in 1..Len(result) : \E i \in 1..Len(found) : Same(found[i], result[j])
InOrder == Final => Sorted(case.argv, result)
(* being overridden by something overridden is being overridden all the same *)
ChainsOverride == Final =>
  \A i, j \in 1..Len(found) : Place(found[i]) = Place(found[j]) /\ found[i].code \in OverridersOf(found[j].code)
     => ~\E k \in 1..Len(result) : Same(found[j], result[k])
Emit == Final => PrintT("CASE " \o ToJson([case |-> case, raw |-> found]))
=============================================================================
