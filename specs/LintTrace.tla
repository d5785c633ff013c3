------------------------------ MODULE LintTrace ------------------------------
(* Judges recorded checks: record = [case, raws, calls, obs, aspects].      *)
(* raws are the messages the linters gave, calls what they were called with.*)
EXTENDS Lint, Json, IOUtils

Packaged == ndJsonDeserialize(IOEnv.PACKAGED)
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

PyFiles(case) == { case.files[i].p : i \in { j \in 1..Len(case.files) : case.files[j].py } }

(* what each file is linted with: calls: Seq([linter, args, files]) *)
CallFails(r, files, want) ==
  LET by(l, p) == { i \in 1..Len(r.calls) : r.calls[i].linter = l /\ p \in RangeOf(r.calls[i].files) }
      flake(p) == want[p].val["no-flake8"] # << "true" >>
  IN UNION { LET py == by("pylint", p) fl == by("flake8", p) IN
       (IF Cardinality(py) # 1 THEN {"pylint-calls " \o p}
        ELSE LET a == r.calls[CHOOSE i \in py : TRUE].args w == want[p].val["pylint"] IN
             IF OtherArgs(a) = OtherArgs(w) /\ SameSwitches(a, w, << >>) THEN {} ELSE {"pylint-args " \o p})
       \cup
       (IF Cardinality(fl) # (IF flake(p) THEN 1 ELSE 0) THEN {"flake8-calls " \o p}
        ELSE IF flake(p) /\ r.calls[CHOOSE i \in fl : TRUE].args # want[p].val["flake8"] THEN {"flake8-args " \o p} ELSE {})
     : p \in files }

Fails(r) ==
  LET case == [r.case EXCEPT !.cfgs = @ \o Packaged]
      obs == r.obs
      asp == RangeOf(r.aspects)
      args == case.argv
      files == { p \in PyFiles(case) : ArgOf(args, p) # 0 }
      want == TLCEval([ p \in files |-> Resolve(case, FileOf(case, p)) ])
      bad == r.fault \/ \E p \in files : ~want[p].ok
      raws == r.raws
      \* messages about files nobody asked to check are not shown
      kept == { i \in 1..Len(raws) : raws[i].file \in files /\ ~Overridden(raws[i], raws) }
      must == { i \in kept : Keep(raws[i], want[raws[i].file].val) = {TRUE} }
      may == { i \in kept : TRUE \in Keep(raws[i], want[raws[i].file].val) }
      name(x) == NameOf(args, case.cwd, x.file)
      seqOf(S) == LET F[i \in 0..Len(raws)] == IF i = 0 THEN << >>
                        ELSE F[i-1] \o (IF i \in S THEN << Fields(raws[i], name(raws[i])) >> ELSE << >>)
                  IN TLCEval(F[Len(raws)])
      got == TLCEval([ i \in 1..Len(obs.problems) |-> Got(obs.problems[i]) ])
      lo == seqOf(must)  hi == seqOf(may)
      missing == { v \in RangeOf(lo) : CountIn(got, v) < CountIn(lo, v) }
      extra == { v \in RangeOf(got) : CountIn(got, v) > CountIn(hi, v) }
  IN IF obs.raised THEN (IF r.fault THEN {} ELSE {"raised"})
     ELSE IF bad THEN (IF obs.failed THEN {} ELSE {"failure-not-reported"})
     ELSE IF obs.failed THEN {"failed"}
     ELSE
       (IF "calls" \in asp THEN CallFails(r, files, want) ELSE {})
       \cup (IF "result" \in asp
             THEN (IF missing # {} THEN {"missing"} ELSE {}) \cup (IF extra # {} THEN {"extra"} ELSE {})
             ELSE {})
       \cup (IF "order" \in asp /\ ~Sorted(args, obs.problems) THEN {"order"} ELSE {})
       \cup (IF "paths" \in asp /\ \E i \in 1..Len(obs.problems) : obs.problems[i].path # name(obs.problems[i]) THEN {"path"} ELSE {})

(* output of the command line: obs.cli = [rc, out, json, jrc] against the result of check_code *)
CliFails(r) ==
  IF "cli" \notin RangeOf(r.aspects) THEN {}
  ELSE LET c == r.obs.cli  ps == r.obs.problems
           failed == r.obs.failed \/ r.obs.raised
           single == Len(r.case.argv) = 1 /\ \E i \in 1..Len(r.case.files) : r.case.files[i].p = r.case.argv[1].abs
       IN (IF c.rc # ExitCode(failed, ps) THEN {"exit-code"} ELSE {})
          \cup (IF c.jrc # ExitCode(failed, ps) THEN {"exit-code-json"} ELSE {})
          \cup (IF ~failed /\ c.out # Printed(ps, single, "<none>") THEN {"printed"} ELSE {})
          \cup (IF failed /\ (c.out # "" \/ c.jout # "") THEN {"printed-on-failure"} ELSE {})
          \cup (IF ~failed /\ ~c.jok THEN {"not-json"} ELSE {})
          \cup (IF ~failed /\ c.jok /\ c.json # [ i \in 1..Len(ps) |-> [ k \in DOMAIN ps[i] \ {"file"} |-> ps[i][k] ] ] THEN {"json"} ELSE {})

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == TLCEval(Fails(Recs[i]) \cup CliFails(Recs[i])) IN
  IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
