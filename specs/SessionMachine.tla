--------------------------- MODULE SessionMachine ---------------------------
EXTENDS Session, Json, IOUtils

MaxOps == atoi(IOEnv.MAXOPS)
Paths == {"a", "b"}
Contents == 1..atoi(IOEnv.CONTENTS)
Opts == 1..atoi(IOEnv.OPTS)
FileSets == { {"a"}, {"b"}, {"a", "b"} }

VARIABLES disk, hist, shown,
          cache,    \* module name -> content whose syntax tree the process has kept
          patched,  \* how many times the linters are patched
          done      \* the history is over

vars == << disk, hist, shown, cache, patched, done >>
Init == /\ disk \in { [a |-> 1, b |-> 2] } /\ hist = << >> /\ shown = << >>
        /\ cache = << >> /\ patched = 0 /\ done = FALSE

Edit(p, c) ==
  /\ ~done /\ Len(hist) < MaxOps /\ disk[p] # c
  /\ hist # << >> /\ hist[Len(hist)].op # "edit"         \* two edits in a row are one
  /\ disk' = [disk EXCEPT ![p] = c]
  /\ hist' = Append(hist, [op |-> "edit", p |-> p, c |-> c])
  /\ UNCHANGED << shown, cache, patched, done >>

(* a check forgets the trees of files, parses what it needs, finds *)
Check(fs, o) ==
  /\ ~done /\ Len(hist) < MaxOps
  /\ LET kept == << >>
         parsed == [ f \in fs |-> IF f \in DOMAIN kept THEN kept[f] ELSE disk[f] ]
     IN /\ cache' = parsed @@ kept
        /\ shown' = Append(shown, [files |-> fs, opts |-> o, disk |-> disk, found |-> Finds(parsed, fs, o)])
  /\ patched' = IF patched = 0 THEN 1 ELSE patched
  /\ hist' = Append(hist, [op |-> "check", fs |-> fs, o |-> o])
  /\ UNCHANGED << disk, done >>
(* a check in which a linter gives up half way *)
Fail(o) ==
  /\ ~done /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, [op |-> "fail", o |-> o])
  /\ cache' = << >> /\ patched' = IF patched = 0 THEN 1 ELSE patched
  /\ UNCHANGED << disk, shown, done >>
Stop == ~done /\ hist # << >> /\ hist[Len(hist)].op = "check" /\ done' = TRUE /\ UNCHANGED << disk, hist, shown, cache, patched >>

Next == (\E p \in Paths, c \in Contents : Edit(p, c)) \/ (\E fs \in FileSets, o \in Opts : Check(fs, o))
        \/ (\E o \in {1} : Fail(o)) \/ Stop
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
NoInfluence == \A i \in 1..Len(shown) : shown[i].found = Finds(shown[i].disk, shown[i].files, shown[i].opts)
PatchedOnce == patched <= 1
TogetherIsOneByOne == \A i \in 1..Len(shown) :
   shown[i].found = UNION { Finds(shown[i].disk, {f}, shown[i].opts) : f \in shown[i].files }
Emit == done => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
