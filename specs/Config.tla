------------------------------- MODULE Config -------------------------------
(* Which configuration every checked file is linted with.                   *)
(*                                                                          *)
(* A case is one invocation of EduLint: the command-line option tokens, the *)
(* checked paths, the files with their in-file comments and the             *)
(* configuration files that exist.  The operators below give the            *)
(* configuration of every checked file.  ConfigMachine gives the same       *)
(* thing as a state machine that reads one argument at a time.              *)
(*                                                                          *)
(* Every option value is a sequence of strings: <<>> is "not set" or an     *)
(* empty list, <<s>> a string, <<"true">>/<<"false">> a flag.               *)
EXTENDS Str, TLC

Options == << "config-file", "pylint", "flake8", "allowed-onechar-names",
              "disallowed-builtin-names", "no-flake8", "ignore-infile-config-for",
              "export-groups", "set-groups", "language-file" >>
OptionSet == RangeOf(Options)

ValType == [ o \in OptionSet |->
  CASE o \in {"config-file", "allowed-onechar-names", "language-file"} -> "str"
    [] o \in {"pylint", "flake8"} -> "list"
    [] o = "no-flake8" -> "flag"
    [] OTHER -> "comma" ]

TakesNoValue(o) == o = "no-flake8"
Accumulates(o) == o \in {"pylint", "flake8"}     \* the other options replace

Default == [ o \in OptionSet |->
  CASE o = "config-file" -> << "default" >>
    [] o = "no-flake8" -> << "false" >>
    [] OTHER -> << >> ]

(* option names are case-insensitive and `config` is short for `config-file` *)
OptName(n) == LET l == Lower(n) IN IF l = "config" THEN "config-file" ELSE l
IsOption(n) == OptName(n) \in OptionSet

Convert(o, hasval, val) ==
  CASE ValType[o] = "str" -> << val >>
    [] ValType[o] = "list" -> << val >>
    [] ValType[o] = "flag" -> << IF hasval /\ val \notin {"true", "on"} THEN "false" ELSE "true" >>
    [] OTHER -> IF val = "" THEN << >> ELSE Split(val, ",")

(* ---- one argument written in a comment or on the command line: [n, h, v] ---- *)
TokOK(t) == IsOption(t.n) /\ (t.h <=> ~TakesNoValue(OptName(t.n)))
TokArg(t) == [o |-> OptName(t.n), v |-> Convert(OptName(t.n), t.h, t.v)]

RECURSIVE TokArgs(_)
TokArgs(toks) ==
  IF toks = << >> THEN << >>
  ELSE (IF TokOK(Head(toks)) THEN << TokArg(Head(toks)) >> ELSE << >>) \o TokArgs(Tail(toks))
TokWarns(toks) == \E i \in 1..Len(toks) : ~TokOK(toks[i])

(* ---- of a replacing option only the last occurrence counts ---- *)
KeepLast(args) ==
  LET keep == { i \in 1..Len(args) :
                  Accumulates(args[i].o) \/ \A j \in (i+1)..Len(args) : args[j].o # args[i].o }
      F[i \in 0..Len(args)] ==
        IF i = 0 THEN << >> ELSE F[i-1] \o (IF i \in keep THEN << args[i] >> ELSE << >>)
  IN F[Len(args)]

Last(args, o, default) ==
  LET is == { i \in 1..Len(args) : args[i].o = o }
  IN IF is = {} THEN default ELSE args[CHOOSE i \in is : \A j \in is : j <= i].v

IgnoresInfile(args) ==
  LET v == RangeOf(Last(args, "ignore-infile-config-for", << >>)) IN "edulint" \in v \/ "all" \in v

(* ---- configuration files ---- *)
PackagedChars == UpperSet \cup Chars(LowerAlpha) \cup Chars(Digits) \cup {"-", "_"}
IsRemote(p) == StartsWith(p, "http://") \/ StartsWith(p, "https://")
IsPackaged(p) == ~IsRemote(p) /\ Chars(p) \subseteq PackagedChars
IsLocal(p) == ~IsRemote(p) /\ ~IsPackaged(p)
(* a relative reference to a local file is relative to what contains it *)
RelTo(p, dir) == IF IsLocal(p) /\ ~StartsWith(p, "/") THEN NormPath(dir \o "/" \o p) ELSE p
BaseConfig == "empty"
(* the directory a reference inside configuration file p is relative to *)
CfgDir(p, cwd) == IF IsLocal(p) THEN DirName(NormPath(IF StartsWith(p, "/") THEN p ELSE cwd \o "/" \o p)) ELSE cwd

(* a TOML value is [t, s | l | d]: t = "s"tring, "i"nteger or boolean (s is  *)
(* its Python text), "l"ist of strings l, "d"ictionary d, "x" anything else  *)
StrVal(v) == CASE v.t \in {"s", "i"} -> << v.s >> [] v.t = "l" -> << Join(v.l, ",") >> [] OTHER -> << >>

RECURSIVE DictArgs(_)
DictArgs(d) ==   \* -> seq of "--k=v"
  IF d = << >> THEN << >>
  ELSE LET s == StrVal(Head(d).v)
       IN (IF s = << >> THEN << >> ELSE << "--" \o Head(d).k \o "=" \o s[1] >>) \o DictArgs(Tail(d))

Special == {"translations", "language-translations", "default-enabler-name"}

(* what one entry k = v of a configuration file of directory dir adds *)
EntryArgs(e, dir) ==
  IF e.k \in Special \/ ~IsOption(e.k) THEN << >>
  ELSE LET o == OptName(e.k) IN
    IF o = "config-file" \/ TakesNoValue(o) THEN << >>
    ELSE IF o = "language-file" THEN
      IF e.v.t = "s" THEN << [o |-> o, v |-> << RelTo(e.v.s, dir) >>] >> ELSE << >>
    ELSE IF e.v.t = "d" THEN
      IF ~Accumulates(o) THEN << >>
      ELSE LET ss == DictArgs(e.v.d) IN [ i \in 1..Len(ss) |-> [o |-> o, v |-> << ss[i] >>] ]
    ELSE LET s == StrVal(e.v) IN
      IF s = << >> THEN << >> ELSE << [o |-> o, v |-> Convert(o, TRUE, s[1])] >>

RECURSIVE EntriesArgs(_, _)
EntriesArgs(es, dir) == IF es = << >> THEN << >> ELSE EntryArgs(Head(es), dir) \o EntriesArgs(Tail(es), dir)

ValWarns(v) == v.t = "x"
DictWarns(d) == \E i \in 1..Len(d) : d[i].v.t \in {"x", "d"}
EntryWarns(e) ==
  CASE e.k = "translations" ->
         \/ e.v.t # "d"
         \/ \E i \in 1..Len(e.v.d) : LET s == e.v.d[i].v IN
              \/ s.t # "d"
              \/ \E j \in 1..Len(s.d) :
                   \/ Lower(s.d[j].k) \notin {"pylint", "flake8"}
                   \/ s.d[j].v.t = "x"
                   \/ s.d[j].v.t = "d" /\ DictWarns(s.d[j].v.d)
    [] e.k = "language-translations" ->
         \/ e.v.t # "d"
         \/ \E i \in 1..Len(e.v.d) : e.v.d[i].k # "translated_extracts" /\ e.v.d[i].v.t # "s"
    [] e.k = "default-enabler-name" -> FALSE
    [] ~IsOption(e.k) -> TRUE
    [] OTHER ->
         LET o == OptName(e.k) IN
         CASE TakesNoValue(o) -> TRUE
           [] o = "config-file" -> e.k = "config-file" /\ e.v.t # "s"
           [] o = "language-file" -> e.v.t # "s"
           [] e.v.t = "d" -> ~Accumulates(o) \/ DictWarns(e.v.d)
           [] OTHER -> ValWarns(e.v)

(* the last value of key k in a dictionary *)
Lookup(d, k) == { i \in 1..Len(d) : d[i].k = k }
Get(d, k) == d[CHOOSE i \in Lookup(d, k) : TRUE].v

(* option sets ("groups"): [n -> Seq([o, a])], the linter arguments a group stands for *)
SetArgs(to) ==
  LET F[i \in 0..Len(to)] ==
        IF i = 0 THEN << >>
        ELSE LET l == Lower(to[i].k) v == to[i].v
                 ss == IF v.t = "d" THEN DictArgs(v.d)
                       ELSE SelectSeq(StrVal(v), LAMBDA s : s # "")
             IN F[i-1] \o (IF l \in {"pylint", "flake8"}
                           THEN [ j \in 1..Len(ss) |-> [o |-> l, v |-> << ss[j] >>] ]
                           ELSE << >>)
  IN F[Len(to)]
FileSets(es) ==
  LET is == Lookup(es, "translations")
      d == IF is = {} THEN << >> ELSE (IF Get(es, "translations").t = "d" THEN Get(es, "translations").d ELSE << >>)
      ok == { i \in 1..Len(d) : d[i].v.t = "d" /\ SetArgs(d[i].v.d) # << >> }
  IN [ n \in { d[i].k : i \in ok } |-> SetArgs(d[CHOOSE i \in ok : d[i].k = n].v.d) ]
FileLang(es) ==
  LET is == Lookup(es, "language-translations")
      d == IF is = {} THEN << >> ELSE (IF Get(es, "language-translations").t = "d" THEN Get(es, "language-translations").d ELSE << >>)
      ok == { i \in 1..Len(d) : d[i].v.t = "s" /\ d[i].k # "translated_extracts" }
  IN [ n \in { d[i].k : i \in ok } |-> d[CHOOSE i \in ok : d[i].k = n].v.s ]
RootLang(es) ==
  LET ok == { i \in 1..Len(es) : es[i].v.t = "s" /\ es[i].k # "translated_extracts" }
  IN [ n \in { es[i].k : i \in ok } |-> es[CHOOSE i \in ok : es[i].k = n].v.s ]

Over(new, old) == [ n \in DOMAIN new \cup DOMAIN old |-> IF n \in DOMAIN new THEN new[n] ELSE old[n] ]

(* ---- who enabled what ---- *)
(* messages a linter argument enables *)
EnabledBy(arg) ==
  CASE arg.o = "pylint" ->
         UNION { IF StartsWith(arg.v[i], "--enable=") THEN RangeOf(Split(After(arg.v[i], "--enable="), ",")) ELSE {} : i \in 1..Len(arg.v) }
    [] arg.o = "flake8" ->
         UNION { IF StartsWith(arg.v[i], "--select=") THEN RangeOf(Split(After(arg.v[i], "--select="), ","))
                 ELSE IF StartsWith(arg.v[i], "--extend-select=") THEN RangeOf(Split(After(arg.v[i], "--extend-select="), ","))
                 ELSE {} : i \in 1..Len(arg.v) }
    [] arg.o = "ignore-infile-config-for" -> IF arg.v = << >> THEN {} ELSE {"EDL001"}
    [] OTHER -> {}
EnablerMap(args, name) ==
  LET k == KeepLast(args)
  IN [ m \in UNION { EnabledBy(k[i]) : i \in 1..Len(k) } |-> name ]

(* ---- a configuration file and what it inherits ---- *)
(* cfgs: Seq([p, ok, e]); result [ok, args, sets, lang, en, warn] *)
CfgIdx(cfgs, p) == { i \in 1..Len(cfgs) : cfgs[i].p = p }
Unavailable == [ok |-> FALSE, args |-> << >>, sets |-> << >>, lang |-> << >>, en |-> << >>, warn |-> TRUE]
NoConfig == [ok |-> TRUE, args |-> << >>, sets |-> << >>, lang |-> << >>, en |-> << >>, warn |-> FALSE]

AbsCfg(p, cwd) == IF IsLocal(p) THEN NormPath(IF StartsWith(p, "/") THEN p ELSE cwd \o "/" \o p) ELSE p

RECURSIVE FileConfig(_, _, _, _)
FileConfig(cfgs, cwd, p, seen) ==
  LET is == CfgIdx(cfgs, AbsCfg(p, cwd)) IN
  IF is = {} \/ p \in seen THEN Unavailable          \* missing, or includes itself
  ELSE LET c == cfgs[CHOOSE i \in is : TRUE]
           dir == CfgDir(p, cwd) IN
    IF ~c.ok THEN Unavailable
    ELSE LET ref == Lookup(c.e, "config-file")
             named == ref # {} /\ Get(c.e, "config-file").t = "s"
             base == IF p = BaseConfig THEN NoConfig
                     ELSE FileConfig(cfgs, cwd, RelTo(IF named THEN Get(c.e, "config-file").s ELSE BaseConfig, dir), seen \cup {p})
             own == EntriesArgs(c.e, dir)
             en == Lookup(c.e, "default-enabler-name")
             name == IF en = {} THEN Stem(p) ELSE Get(c.e, "default-enabler-name").s
         IN IF ~base.ok THEN Unavailable
            ELSE [ok |-> TRUE,
                  args |-> KeepLast(base.args \o own),
                  sets |-> Over(FileSets(c.e), base.sets),
                  lang |-> Over(FileLang(c.e), base.lang),
                  en |-> Over(EnablerMap(own, name), base.en),
                  warn |-> base.warn \/ \E i \in 1..Len(c.e) : EntryWarns(c.e[i])]

(* ---- in-file configuration ---- *)
RECURSIVE LineToks(_)
LineToks(lines) ==
  IF lines = << >> THEN << >>
  ELSE (CASE Head(lines).k = "opt" -> Head(lines).t
          [] Head(lines).k = "ib" -> << [n |-> "config-file", h |-> TRUE, v |-> "ib111.toml"] >>
          [] OTHER -> << >>) \o LineToks(Tail(lines))

RECURSIVE ImplicitConfig(_, _)
ImplicitConfig(cfgs, dir) ==    \* nearest edulint.toml or .edulint.toml
  IF dir = "/" THEN ""
  ELSE IF CfgIdx(cfgs, NormPath(dir \o "/edulint.toml")) # {} THEN NormPath(dir \o "/edulint.toml")
  ELSE IF CfgIdx(cfgs, NormPath(dir \o "/.edulint.toml")) # {} THEN NormPath(dir \o "/.edulint.toml")
  ELSE ImplicitConfig(cfgs, DirName(dir))

InfileArgs(cfgs, file) ==
  LET dir == DirName(file.p)
      imp == ImplicitConfig(cfgs, dir)
      raw == (IF imp = "" THEN << >> ELSE << [o |-> "config-file", v |-> << imp >>] >>) \o TokArgs(LineToks(file.lines))
      rel == [ i \in 1..Len(raw) |->
                 IF raw[i].o \in {"config-file", "language-file"} THEN [raw[i] EXCEPT !.v = << RelTo(@[1], dir) >>] ELSE raw[i] ]
  IN IF IgnoresInfile(rel)     \* it ignores everything but itself
     THEN << [o |-> "ignore-infile-config-for", v |-> Last(rel, "ignore-infile-config-for", << >>)] >>
     ELSE KeepLast(rel)
InfileWarns(file) ==
  \/ TokWarns(LineToks(file.lines))
  \/ \E i \in 1..Len(file.lines) : file.lines[i].k = "bad"

(* ---- groups ---- *)
Expand(args, sets) ==
  LET One(a) ==
        << a >>
        \o (IF a.o = "set-groups"
            THEN Concat([ i \in 1..Len(a.v) |-> IF a.v[i] \in DOMAIN sets THEN sets[a.v[i]] ELSE << >> ])
            ELSE << >>)
        \o (IF a.o \in DOMAIN sets THEN sets[a.o] ELSE << >>)
  IN Concat([ i \in 1..Len(args) |-> One(args[i]) ])
GroupWarns(args, sets) ==
  \E i \in 1..Len(args) : args[i].o = "set-groups" /\ \E j \in 1..Len(args[i].v) : args[i].v[j] \notin DOMAIN sets

Accumulate(args) ==     \* the value of every option
  [ o \in OptionSet |->
      IF Accumulates(o)
      THEN Concat([ i \in 1..Len(args) |-> IF args[i].o = o THEN args[i].v ELSE << >> ])
      ELSE Last(args, o, Default[o]) ]

(* ---- what the arguments for Pylint switch on and off, read left to right ---- *)
IsEnable(a) == Len(a) >= 9 /\ Lower(SubSeq(a, 1, 9)) = "--enable="
IsDisable(a) == Len(a) >= 10 /\ Lower(SubSeq(a, 1, 10)) = "--disable="
IsSwitch(a) == IsEnable(a) \/ IsDisable(a)
OtherArgs(as) == SelectSeq(as, LAMBDA a : ~IsSwitch(a))
(* the switches in order: [on, names] *)
Switches(as) ==
  LET ss == SelectSeq(as, IsSwitch)
  IN TLCEval([ i \in 1..Len(ss) |->
       [on |-> IsEnable(ss[i]),
        names |-> RangeOf(Split(Lower(IF IsEnable(ss[i]) THEN After(ss[i], "--enable=") ELSE After(ss[i], "--disable=")), ","))] ])

(* state of a message covered by `names` after switches ss ("all" covers every message) *)
SwitchState(ss, names) ==
  LET hits == { i \in 1..Len(ss) : ss[i].names \cap (names \cup {"all"}) # {} }
  IN IF hits = {} THEN "default"
     ELSE IF ss[CHOOSE i \in hits : \A j \in hits : j <= i].on THEN "on" ELSE "off"
(* Pylint itself handles --enable=all and --disable=all before the others *)
IsAll(s) == s.names = {"all"}
AllFirst(ss) == SelectSeq(ss, IsAll) \o SelectSeq(ss, LAMBDA s : ~IsAll(s))
(* and refuses to be given both *)
PylintStarts(ss) == \A i, j \in 1..Len(ss) : IsAll(ss[i]) /\ IsAll(ss[j]) => ss[i].on = ss[j].on

AllNames(ss) == UNION { ss[i].names : i \in 1..Len(ss) }
(* Arguments `real` given to Pylint have the effect of `args` read from left *)
(* to right.  cover: Seq([m, n]): message m is switched by any name in n.    *)
(* noop is no message: it keeps Pylint from refusing to run with no checks.  *)
SameSwitches(real, args, cover) ==
  LET want == Switches(args)
      got == TLCEval(AllFirst(Switches(real)))
      same(names) == SwitchState(got, names) = SwitchState(want, names)
  IN /\ PylintStarts(got)
     /\ \A m \in (AllNames(got) \cup AllNames(want)) \ {"noop"} : same({m})
     /\ \A i \in 1..Len(cover) : same(RangeOf(cover[i].n))
     /\ same({})
     /\ (\E i \in 1..Len(want) : want[i] = [on |-> TRUE, names |-> {"noop"}])
          => (\E i \in 1..Len(got) : got[i].on /\ got[i].names # {"all"})

(* ---- the configuration of one file ---- *)
CmdArgs(case) == KeepLast(TokArgs(case.cmd))
FileOf(case, p) == case.files[CHOOSE i \in 1..Len(case.files) : case.files[i].p = p]

FileInfile(case, file) == IF IgnoresInfile(CmdArgs(case)) THEN << >> ELSE InfileArgs(case.cfgs, file)
ConfigPath(case, infile) ==
  Last(CmdArgs(case), "config-file", Last(infile, "config-file", Default["config-file"]))[1]

Resolve(case, file) ==
  LET cmd == CmdArgs(case)
      inf == FileInfile(case, file)
      path == ConfigPath(case, inf)
      fc == TLCEval(FileConfig(case.cfgs, case.cwd, path, {}))
      named == Last(cmd, "config-file", << >>) # << >>
      infileOnly == IgnoresInfile(fc.args)
      args == IF infileOnly THEN (IF named THEN KeepLast(fc.args \o cmd) ELSE cmd)
              ELSE KeepLast(fc.args \o KeepLast(inf \o cmd))
      expanded == TLCEval(Expand(args, fc.sets))
      val == TLCEval(Accumulate(expanded))
      lf == val["language-file"]
      li == IF lf = << >> THEN {} ELSE CfgIdx(case.cfgs, AbsCfg(lf[1], case.cwd))
      langfile == IF li = {} THEN << >>
                  ELSE LET c == case.cfgs[CHOOSE i \in li : TRUE] IN IF c.ok THEN RootLang(c.e) ELSE << >>
      en == Over(EnablerMap(cmd, "cmd"),
              IF infileOnly THEN (IF named THEN fc.en ELSE << >>)
              ELSE Over(EnablerMap(inf, "in-file"), fc.en))
  IN [ok |-> fc.ok,
      val |-> val,
      lang |-> Over(langfile, fc.lang),
      en |-> en,
      sets |-> fc.sets,
      warn |-> \/ TokWarns(case.cmd)
               \/ ~IgnoresInfile(cmd) /\ InfileWarns(file)
               \/ fc.warn
               \/ GroupWarns(args, fc.sets)
               \/ lf # << >> /\ (langfile = << >> /\ (li = {} \/ ~case.cfgs[CHOOSE i \in li : TRUE].ok))
               \/ lf # << >> /\ li # {} /\ \E i \in 1..Len(case.cfgs[CHOOSE j \in li : TRUE].e) :
                      LET x == case.cfgs[CHOOSE j \in li : TRUE].e[i] IN x.k # "translated_extracts" /\ x.v.t # "s"]

(* who may be reported as having enabled a message with the given names     *)
(* (its code and its symbol): the strongest source that enables it by one   *)
(* of the names; a group only for a name no source enables by itself        *)
SetsNaming(sets, m) == { n \in DOMAIN sets : \E i \in 1..Len(sets[n]) : m \in EnabledBy(sets[n][i]) }
Enablers(w, names) ==
  LET by(m) == IF m \in DOMAIN w.en THEN { w.en[m] } ELSE SetsNaming(w.sets, m)
      all == UNION { by(m) : m \in names }
  IN IF all = {} THEN {"<null>"} ELSE all
=============================================================================
