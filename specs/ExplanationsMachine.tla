------------------------- MODULE ExplanationsMachine -------------------------
EXTENDS Explanations, IOUtils
MAXOPS == atoi(IOEnv.MAXOPS)
VARIABLES st, procs, pub, ops, ended, asked
vars == << st, procs, pub, ops, ended, asked >>
No == [k |-> "none", pc |-> "none", got |-> "", res |-> "", req |-> 0]
Idle(i) == procs[i].pc = "none"
Tags == << "1", "2", "3" >>
Init == st = Start(1000) /\ procs = [i \in 1..2 |-> No] /\ pub = 0 /\ ops = 0 /\ ended = No /\ asked = << >>
Begin == /\ ops < MAXOPS /\ ops' = ops + 1
         /\ \E i \in 1..2, p \in {Upd, Show} : Idle(i) /\ (i = 2 => ~Idle(1)) /\ procs' = [procs EXCEPT ![i] = p]
         /\ UNCHANGED << st, pub, ended, asked >>
Alone == \E i \in 1..2 : Idle(i)
Work == \E i \in 1..2 : \E n \in Step(st, procs[i], Alone) :
         /\ st' = n.st /\ UNCHANGED << pub, ops >>
         /\ asked' = IF procs[i].pc = "ask" THEN << st.now >> ELSE asked
         /\ IF n.p.pc = "done" THEN procs' = [procs EXCEPT ![i] = No] /\ ended' = n.p
            ELSE procs' = [procs EXCEPT ![i] = n.p] /\ UNCHANGED ended
Crash == \E i \in 1..2 : ~Idle(i) /\ st' \in Wrecked(st, procs[i]) /\ procs' = [procs EXCEPT ![i] = No] /\ UNCHANGED << pub, ops, ended, asked >>
Server == /\ \E m \in {"ok", "garbage", "down"} :
             IF m = "ok" /\ pub < 3 THEN pub' = pub + 1 /\ st' = [st EXCEPT !.mode = "ok", !.v = Tags[pub + 1]]
             ELSE m # "ok" /\ st' = [st EXCEPT !.mode = m] /\ UNCHANGED pub
          /\ UNCHANGED << procs, ops, ended, asked >>
Pass == /\ \A i \in 1..2 : Idle(i)
        /\ ops < MAXOPS /\ ops' = ops + 1
        /\ \E d \in {1, 599, 600} : st' = [st EXCEPT !.now = @ + d] /\ UNCHANGED << procs, pub, asked >> /\ ended' = No
Next == Begin \/ Work \/ Crash \/ Server \/ Pass
Spec == Init /\ [][Next]_vars
Complete == ended.k = "explain" => ended.res \in {"bundled"} \cup { Tags[i] : i \in 1..pub }
(* a failed download changes nothing *)
FailedChangesNothing == [][ st.online # st'.online => \E i \in 1..2 : procs[i].pc = "store" ]_vars
(* the newest complete download is shown *)
ShowsStored == ended.k = "explain" /\ ended.res = "bundled" => (st.online \in {"", "bad"} \/ ops > 0)
=============================================================================
