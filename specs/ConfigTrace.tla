----------------------------- MODULE ConfigTrace -----------------------------
(* Judges recorded runs of the real code against Config: record = [case,    *)
(* aspects, cover, obs].  A cursor per stride walks the records; a record   *)
(* the specification does not accept is printed.                            *)
EXTENDS Config, Suppress, Json, IOUtils

Packaged == ndJsonDeserialize(IOEnv.PACKAGED)
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)

VARIABLE pos

PairMap(ps) == [ k \in { ps[i][1] : i \in 1..Len(ps) } |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2] ]

PyFiles(case) == { case.files[i].p : i \in { j \in 1..Len(case.files) : case.files[j].py } }
Under(p, d) == p = d \/ StartsWith(p, d \o "/")
Checked(case) == { p \in PyFiles(case) : \E i \in 1..Len(case.args) : Under(p, case.args[i]) }

SameValues(real, want, cover) ==
  { o \in OptionSet \ {"pylint"} : real[o] # want[o] }
  \cup (IF OtherArgs(real["pylint"]) # OtherArgs(want["pylint"]) THEN {"pylint"} ELSE {})
  \cup (IF SameSwitches(real["pylint"], want["pylint"], cover) THEN {} ELSE {"pylint-switches"})

Fails(r) ==
  LET case == [r.case EXCEPT !.cfgs = @ \o Packaged]  obs == r.obs
      asp == RangeOf(r.aspects)
      files == Checked(case)
      want == TLCEval([ p \in files |-> Resolve(case, FileOf(case, p)) ])
      avail == { p \in files : want[p].ok }
      ents == [ i \in 1..Len(obs.entries) |-> RangeOf(obs.entries[i].files) ]
      with(p) == { i \in DOMAIN ents : p \in ents[i] }
      val(p) == LET e == obs.entries[CHOOSE i \in with(p) : TRUE] IN PairMap(e.val)
      lang(p) == LET e == obs.entries[CHOOSE i \in with(p) : TRUE] IN PairMap(e.lang)
      seen == { p \in avail : with(p) # {} }
  IN IF ~obs.ok THEN {"raised"}
     ELSE
       (IF \E p \in avail : with(p) = {} THEN {"file-without-configuration"} ELSE {})
       \cup (IF \E p \in files \ avail : with(p) # {} THEN {"file-with-unavailable-configuration"} ELSE {})
       \cup (IF "partition" \in asp
             THEN (IF \E p \in avail : Cardinality(with(p)) # 1 THEN {"file-not-in-exactly-one-part"} ELSE {})
                  \cup (IF \E i \in DOMAIN ents : ents[i] \ files # {} THEN {"unexpected-file"} ELSE {})
             ELSE {})
       \cup (IF "values" \in asp
             THEN UNION { SameValues(val(p), want[p].val, r.cover) : p \in seen } ELSE {})
       \cup (IF "pylint" \in asp
             THEN UNION { SameValues(val(p), want[p].val, r.cover) \cap {"pylint", "pylint-switches"} : p \in seen } ELSE {})
       \cup (IF "lang" \in asp /\ \E p \in seen : lang(p) # want[p].lang THEN {"lang"} ELSE {})
       \cup (IF "warn" \in asp /\ (obs.warned # \E p \in files : want[p].warn)
             THEN {IF obs.warned THEN "unexpected-warning" ELSE "no-warning"} ELSE {})
       \cup (IF "enabledby" \in asp
             THEN { "enabled_by " \o x.by \o " of " \o x.code : x \in
                    { obs.problems[i] : i \in { j \in 1..Len(obs.problems) :
                        LET q == obs.problems[j] IN
                          q.file \in avail /\ q.by \notin Enablers(want[q.file], {q.code, q.symbol}) } } }
             ELSE {})
       \cup (IF "suppress" \in asp /\ ~obs.failed
             THEN { "suppressions of " \o p : p \in { q \in avail :
                      LET raw == r.raws[CHOOSE i \in 1..Len(case.files) : case.files[i].p = q] IN
                      { obs.edl[i].line : i \in { j \in 1..Len(obs.edl) : obs.edl[j].file = q } }
                        # Reported(raw, RangeOf(want[q].val["ignore-infile-config-for"])) } }
             ELSE {})
       \cup (IF "error" \in asp /\ (obs.failed # \E p \in files : ~want[p].ok)
             THEN {"error-reporting"} ELSE {})

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == Fails(Recs[i]) IN
  IF f = {} THEN TRUE
  ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f,
         exp |-> LET c == [Recs[i].case EXCEPT !.cfgs = @ \o Packaged] IN [ p \in Checked(c) |-> LET w == Resolve(c, FileOf(c, p)) IN [val |-> w.val, ok |-> w.ok, warn |-> w.warn, lang |-> w.lang] ]]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
