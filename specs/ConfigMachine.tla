---------------------------- MODULE ConfigMachine ----------------------------
(* EduLint's configuration as a state machine that reads one argument at a  *)
(* time, the strongest first: the command line from its end, then the       *)
(* comments in the checked file, the configuration file, and the file that  *)
(* one inherits from.  An argument that a stronger one replaces is skipped. *)
(* Model checking explores every way of writing up to MaxArgs arguments; in *)
(* every final state the declarative laws below must hold and the operators *)
(* of Config, which work forwards, must give the same configuration.  Final *)
(* states are printed and replayed into the real code.                      *)
EXTENDS Config, Json, IOUtils

MaxArgs == atoi(IOEnv.MAXARGS)
Profile == IOEnv.PROFILE

Layers == << "base", "file", "infile", "cmd" >>

T(n, v) == [n |-> n, h |-> TRUE, v |-> v]
Flag(n) == [n |-> n, h |-> FALSE, v |-> ""]

Alphabet ==
  CASE Profile = "precedence" ->
         { T("allowed-onechar-names", "a"), T("allowed-onechar-names", "b"), T("disallowed-builtin-names", "x,y"),
           T("pylint", "--p"), T("flake8", "--q"), T("flake8", "--r"), Flag("no-flake8"),
           T("export-groups", "e") }
    [] Profile = "groups" ->
         { T("set-groups", "g"), T("set-groups", "h,g"), T("set-groups", ""), T("set-groups", "none"),
           T("allowed-onechar-names", "a"), T("pylint", "--p") }
    [] Profile = "switches" ->
         { T("pylint", "--enable=x"), T("pylint", "--disable=x"), T("pylint", "--enable=all"),
           T("pylint", "--disable=all"), T("pylint", "--disable=x,y"), T("pylint", "--p=X") }
    [] Profile = "ignore" ->
         { T("ignore-infile-config-for", "all"), T("ignore-infile-config-for", "flake8"),
           T("ignore-infile-config-for", "pylint,edulint"), T("allowed-onechar-names", "a"), T("pylint", "--p"),
           T("config-file", "empty") }
    [] Profile = "malformed" ->
         { T("nonsense", "v"), Flag("nonsense"), Flag("pylint"), T("no-flake8", "true"), Flag("No-Flake8"),
           T("PYLINT", "--p"), T("Config", "empty"), T("set_groups", "g"), T("allowed-onechar-names", "") }
    [] Profile = "enablers" ->
         { T("pylint", "--enable=x"), T("pylint", "--enable=x,y"), T("pylint", "--disable=x"),
           T("flake8", "--extend-select=F"), T("flake8", "--select=F,G"), T("set-groups", "g") }

(* what the groups of the model stand for: g and h are defined in the base  *)
(* file, h again in the file; one set is named after an option              *)
SetsBase == [ g |-> << [o |-> "pylint", v |-> << "--g1=" >>], [o |-> "pylint", v |-> << "--enable=x,z" >>] >>,
              h |-> << [o |-> "flake8", v |-> << "--hbase" >>] >> ]
SetsFile == ("h" :> << [o |-> "flake8", v |-> << "--h1" >>] >>)
            @@ ("allowed-onechar-names" :> << [o |-> "pylint", v |-> << "--oc" >>] >>)
Sets == IF Profile \in {"groups", "enablers"} THEN Over(SetsFile, SetsBase) ELSE << >>

(* EduLint's own resolution of --enable=all and --disable=all: right to left *)
ResolveAll(as) ==
  LET LA(a) == IF IsSwitch(a) THEN Lower(a) ELSE a
      R[i \in 1..(Len(as) + 1)] ==     \* [out, all]
        IF i > Len(as) THEN [out |-> << >>, all |-> ""]
        ELSE LET r == R[i+1] a == LA(as[i]) IN
          IF a \in {"--enable=all", "--disable=all"}
          THEN IF r.all # "" THEN r ELSE [out |-> << a >> \o r.out, all |-> a]
          ELSE IF \/ IsDisable(a) /\ r.all = "--enable=all"
                  \/ IsEnable(a) /\ a # "--enable=noop" /\ r.all = "--disable=all"
          THEN r
          ELSE [out |-> << a >> \o r.out, all |-> r.all]
  IN R[1].out

VARIABLES layer,   \* the layer being read: 4 (command line) down to 1, 0 when all are read
          hist,    \* Seq([l, t]): what is written where, in the order it takes effect
          items,   \* Seq([l, o, v]): the arguments in effect, in that order
          ign,     \* per layer, the last ignore-infile-config-for written in it
          final    \* the resulting configuration, << >> until then

vars == << layer, hist, items, ign, final >>

Init == /\ layer = 4 /\ hist = << >> /\ items = << >> /\ ign = [ l \in RangeOf(Layers) |-> << >> ] /\ final = << >>

L == Layers[layer]
Ignoring(l) == ign[l] # << >> /\ ("all" \in RangeOf(ign[l][1]) \/ "edulint" \in RangeOf(ign[l][1]))
FileIgnoring == IF ign["file"] # << >> THEN Ignoring("file") ELSE Ignoring("base")
IsSet(o) == \E i \in 1..Len(items) : items[i].o = o
FilesUsed == ~IsSet("config-file") /\ ~Ignoring("cmd") /\ ~Ignoring("infile")

(* a configuration file has each key once, and no flags here *)
FileTok(t) == TokOK(t) /\ t.h /\ OptName(t.n) # "config-file"
             /\ \A i \in 1..Len(hist) : hist[i].l = L => OptName(hist[i].t.n) # OptName(t.n)

Read(t) ==
  /\ layer >= 1 /\ Len(hist) < MaxArgs
  /\ L \in {"base", "file"} => FileTok(t)
  /\ hist' = << [l |-> L, t |-> t] >> \o hist
  /\ LET a == TokArg(t) IN
     IF TokOK(t)
     THEN /\ items' = IF ~Accumulates(a.o) /\ IsSet(a.o) THEN items
                      ELSE << [l |-> L, o |-> a.o, v |-> a.v] >> \o items
          /\ ign' = IF a.o = "ignore-infile-config-for" /\ ign[L] = << >> THEN [ign EXCEPT ![L] = << a.v >>] ELSE ign
     ELSE UNCHANGED << items, ign >>
  /\ UNCHANGED << layer, final >>

(* what was written in layers that turn out to be ignored has no effect *)
EndLayer ==
  /\ layer >= 1
  /\ layer' = layer - 1
  /\ items' =
       IF L = "infile" /\ Ignoring("cmd")
       THEN SelectSeq(items, LAMBDA x : x.l # "infile")
       ELSE IF L = "infile" /\ Ignoring("infile")
       THEN SelectSeq(items, LAMBDA x : x.l # "infile" \/ x.o = "ignore-infile-config-for")
       ELSE IF L = "base"
       THEN IF ~FilesUsed THEN SelectSeq(items, LAMBDA x : x.l \notin {"base", "file"})
            ELSE IF FileIgnoring THEN SelectSeq(items, LAMBDA x : x.l = "cmd")
            ELSE items
       ELSE items
  /\ UNCHANGED << hist, ign, final >>

Finish ==
  /\ layer = 0 /\ final = << >>
  /\ LET v == Accumulate(Expand([ i \in 1..Len(items) |-> [o |-> items[i].o, v |-> items[i].v] ],
                                IF FilesUsed THEN Sets ELSE << >>))
     IN final' = [v EXCEPT !["pylint"] = ResolveAll(@)]
  /\ UNCHANGED << layer, hist, items, ign >>

Next == (\E t \in Alphabet : Read(t)) \/ EndLayer \/ Finish
Spec == Init /\ [][Next]_vars

Done == final # << >>
(* ---- the laws, over what was written (hist) ---- *)
Counts(h) ==      \* does a well-formed written argument have a say?
  /\ TokOK(h.t)
  /\ h.l = "infile" => /\ ~Ignoring("cmd")
                       /\ Ignoring("infile") => OptName(h.t.n) = "ignore-infile-config-for"
                       /\ ~(FilesUsed /\ FileIgnoring)
  /\ h.l \in {"base", "file"} => FilesUsed /\ ~FileIgnoring
Eff == SelectSeq(hist, Counts)
EffOf(o) == SelectSeq(Eff, LAMBDA h : OptName(h.t.n) = o)

LastWins == Done =>
  \A o \in { o \in OptionSet : ~Accumulates(o) } :
    LET w == EffOf(o) IN final[o] = IF w = << >> THEN Default[o] ELSE TokArg(w[Len(w)].t).v
(* every accumulated argument is passed on, in order *)
AllPassed == (Done /\ Profile \in {"precedence", "ignore", "malformed"}) =>
  \A o \in {"pylint", "flake8"} : LET w == EffOf(o) IN final[o] = [ i \in 1..Len(w) |-> w[i].t.v ]
(* a group's arguments are there exactly when the last set-groups names it *)
GroupsApplied == (Done /\ Profile = "groups") =>
  /\ ("--g1=" \in RangeOf(final["pylint"])) <=> (FilesUsed /\ "g" \in RangeOf(final["set-groups"]))
  /\ ("--h1" \in RangeOf(final["flake8"])) <=> (FilesUsed /\ "h" \in RangeOf(final["set-groups"]))
  /\ "--hbase" \notin RangeOf(final["flake8"])
  /\ ("--oc" \in RangeOf(final["pylint"])) <=> (FilesUsed /\ EffOf("allowed-onechar-names") # << >>)
SwitchesLeftToRight == (Done /\ Profile = "switches") =>
  LET w == EffOf("pylint") as == [ i \in 1..Len(w) |-> w[i].t.v ]
  IN SameSwitches(final["pylint"], as, << >>) /\ OtherArgs(final["pylint"]) = OtherArgs(as)
(* an in-file argument ignored by the command line changes nothing *)
CmdIgnoreHolds == (Done /\ Ignoring("cmd")) =>
  \A o \in OptionSet : final[o] # Default[o] => \E i \in 1..Len(hist) : hist[i].l = "cmd" /\ TokOK(hist[i].t) /\ OptName(hist[i].t.n) = o
MalformedIgnored == Done =>
  \A o \in OptionSet : final[o] # Default[o] => \E i \in 1..Len(hist) : TokOK(hist[i].t)
                         /\ (OptName(hist[i].t.n) = o \/ (o \in {"pylint", "flake8"} /\ Sets # << >>))

(* ---- the same thing by the operators of Config ---- *)
RECURSIVE Entries(_)
Entries(as) == IF as = << >> THEN << >>
  ELSE << [k |-> Head(as).t.n, v |-> [t |-> "s", s |-> Head(as).t.v]] >> \o Entries(Tail(as))
SetEntry(sets) == << [k |-> "translations", v |-> [t |-> "d", d |->
   [ i \in 1..Len(sets) |-> [k |-> sets[i][1], v |-> [t |-> "d", d |-> sets[i][2]]] ]]] >>
S(l, x) == [k |-> l, v |-> [t |-> "l", l |-> << x >>]]
BaseSetEntry == IF Profile \notin {"groups", "enablers"} THEN << >>
  ELSE SetEntry(<< << "g", << [k |-> "pylint", v |-> [t |-> "d", d |-> << [k |-> "g1", v |-> [t |-> "s", s |-> ""]], [k |-> "enable", v |-> [t |-> "s", s |-> "x,z"]] >>]] >> >>, << "h", << S("flake8", "--hbase") >> >> >>)
FileSetEntry == IF Profile \notin {"groups", "enablers"} THEN << >>
  ELSE SetEntry(<< << "h", << S("flake8", "--h1") >> >>, << "allowed-onechar-names", << S("pylint", "--oc") >> >> >>)

Of(l) == SelectSeq(hist, LAMBDA h : h.l = l)
Toks(l) == LET w == Of(l) IN [ i \in 1..Len(w) |-> w[i].t ]
Case ==
  [ cwd |-> "/R", args |-> << "/R/m.py" >>, cmd |-> Toks("cmd"),
    files |-> << [p |-> "/R/m.py", py |-> TRUE, lines |-> << [k |-> "opt", t |-> Toks("infile")] >>] >>,
    cfgs |-> << [p |-> "/R/edulint.toml", ok |-> TRUE,
                 e |-> << [k |-> "config-file", v |-> [t |-> "s", s |-> "base.toml"]] >> \o Entries(Of("file")) \o FileSetEntry],
                [p |-> "/R/base.toml", ok |-> TRUE, e |-> Entries(Of("base")) \o BaseSetEntry] >> ]
(* the packaged configurations are empty in the model *)
ModelCase == [Case EXCEPT !.cfgs = @ \o << [p |-> "default", ok |-> TRUE, e |-> << >>], [p |-> "empty", ok |-> TRUE, e |-> << >>] >>]
MachineIsOperators == Done =>
  LET r == Resolve(ModelCase, ModelCase.files[1]).val
  IN \A o \in OptionSet \ {"pylint", "config-file"} : r[o] = final[o]
     /\ SameSwitches(final["pylint"], r["pylint"], << >>) /\ OtherArgs(r["pylint"]) = OtherArgs(final["pylint"])

Emit == Done => PrintT("CASE " \o ToJson(Case))
=============================================================================
