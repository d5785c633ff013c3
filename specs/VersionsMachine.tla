--------------------------- MODULE VersionsMachine ---------------------------
(* Two processes, releases, failures, crashes, time.                         *)
EXTENDS Versions, IOUtils
MAXOPS == atoi(IOEnv.MAXOPS)
Local == "4.3.1"
TTL == 600
VARIABLES st, procs, ever, ops, ended, lastask, disturbed
vars == << st, procs, ever, ops, ended, lastask, disturbed >>
NoProc == [Look(0, "edulint", 0) EXCEPT !.pc = "none"]
Rel(v, b, y) == [v |-> v, builds |-> b, yanked |-> y]
Indexes == { << Rel("4.3.1", 1, FALSE) >>, << Rel("4.3.10", 1, TRUE), Rel("4.3.2", 1, FALSE), Rel("4.3.2a1", 1, FALSE) >>,
             << Rel("5.0.0.dev3", 1, FALSE), Rel("4.3.0", 1, FALSE) >>, << Rel("4.10.0", 2, FALSE), Rel("4.3.2", 1, FALSE), Rel("5.0", 0, FALSE) >> }
Init == st = Start(1000) /\ procs = [i \in 1..2 |-> NoProc] /\ ever = {} /\ ops = 0 /\ ended = NoProc /\ lastask = [g \in Pkgs |-> -1] /\ disturbed = FALSE
Begin == /\ ops < MAXOPS /\ ops' = ops + 1
         /\ \E i \in 1..2 : /\ procs[i].pc = "none" /\ (i = 2 => procs[1].pc # "none")
                            /\ \E g \in (IF ops = 0 THEN {"edulint"} ELSE Pkgs) : procs' = [procs EXCEPT ![i] = Look(i, g, TTL)]
                            /\ disturbed' = (disturbed \/ i = 2)
         /\ UNCHANGED << st, ever, ended, lastask >>
Work == \E i \in 1..2 : \E n \in Step(st, procs[i]) :
          /\ st' = n.st /\ UNCHANGED << ever, ops, disturbed >>
          /\ lastask' = IF procs[i].pc = "ask" THEN [lastask EXCEPT ![procs[i].pkg] = st.now] ELSE lastask
          /\ IF n.p.pc = "done" THEN procs' = [procs EXCEPT ![i] = NoProc] /\ ended' = n.p
             ELSE procs' = [procs EXCEPT ![i] = n.p] /\ UNCHANGED ended
Crash == \E i \in 1..2 : procs[i].pc # "none" /\ disturbed' = TRUE /\ procs' = [procs EXCEPT ![i] = NoProc] /\ UNCHANGED << st, ever, ops, ended, lastask >>
(* what the index says matters only when it is asked *)
Index == /\ \E i \in 1..2 : procs[i].pc = "ask"
         /\ \E x \in Indexes, m \in {"ok", "down"} : st' = [st EXCEPT !.mode = m, !.rels = x] /\ ever' = ever \cup Full(x) /\ UNCHANGED << procs, ops, ended, lastask, disturbed >>
Pass == /\ \A i \in 1..2 : procs[i].pc = "none"
        /\ ops < MAXOPS /\ ops' = ops + 1 /\ ended' = NoProc
        /\ \E d \in {1, 599, 600} : st' = [st EXCEPT !.now = @ + d] /\ UNCHANGED << procs, ever, lastask, disturbed >>
Next == Begin \/ Work \/ Crash \/ Index \/ Pass
Spec == Init /\ [][Next]_vars
(* what is announced was once the newest full release, and is newer than what is installed *)
OnlyReal == ended.pc = "done" => ended.res \in ever \cup {"none"}
AnnouncedIsNewer == Announces(ended.res, Local) => Rank(ended.res) > Rank(Local) /\ ended.res \notin Pre
(* a single undisturbed process asks for a package at most once per TTL *)
AskedOnce == [][ \A i \in 1..2 : (procs[i].pc = "ask" /\ procs'[i].pc # "ask") =>
                  LET g == procs[i].pkg IN
                  \/ lastask[g] = -1 \/ st.now - lastask[g] >= TTL \/ disturbed ]_vars
(* what one package is asked for does not concern the other *)
OthersKept == [][ \A g \in Pkgs : (st.data[g].ts > 0 /\ st'.data[g] # st.data[g] /\ ~disturbed') =>
                  \E i \in 1..2 : procs[i].pkg = g /\ procs[i].pc \in {"write1", "write2"} ]_vars
=============================================================================
