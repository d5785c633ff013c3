------------------------- MODULE RemoteCacheMachine -------------------------
(* Up to two processes at a time, with crashes, a changing and failing      *)
(* server and time passing.  pub[u] is the history of what was published.   *)
EXTENDS RemoteCache, IOUtils
MAXPUB == atoi(IOEnv.MAXPUB)
MAXOPS == atoi(IOEnv.MAXOPS)
Urls == {"a", "b"}
Tag(u, n) == u \o (CASE n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] OTHER -> "4")
Delays == {1, 299, 300, 719700}

VARIABLES st, procs, pub, ops, ended
vars == << st, procs, pub, ops, ended >>
NoProc == [u |-> "", pc |-> "none", got |-> "", res |-> "", req |-> 0, space |-> TRUE]
Idle == {"none"}

Init == /\ st = Empty(Urls, 1000) /\ procs = [i \in 1..2 |-> NoProc]
        /\ pub = [u \in Urls |-> << >>] /\ ops = 0 /\ ended = NoProc

Quiet == \A i \in 1..2 : procs[i].pc \in Idle
Start == /\ ops < MAXOPS /\ ops' = ops + 1
         /\ \E i \in 1..2, u \in Urls, sp \in BOOLEAN :
              /\ procs[i].pc \in Idle /\ (i = 2 => procs[1].pc \notin Idle)
              /\ procs' = [procs EXCEPT ![i] = Proc(u, sp)]
         /\ UNCHANGED << st, pub, ended >>
Work == \E i \in 1..2 : \E n \in Step(st, procs[i]) :
          /\ st' = n.st
          /\ IF n.p.pc = "done" THEN procs' = [procs EXCEPT ![i] = NoProc] /\ ended' = n.p
             ELSE procs' = [procs EXCEPT ![i] = n.p] /\ UNCHANGED ended
          /\ UNCHANGED << pub, ops >>
Crash == \E i \in 1..2 : procs[i].pc \notin Idle /\ procs' = [procs EXCEPT ![i] = NoProc] /\ UNCHANGED << st, pub, ops, ended >>
Publish == \E u \in Urls :
          /\ Len(pub[u]) < MAXPUB
          /\ pub' = [pub EXCEPT ![u] = Append(@, [tag |-> Tag(u, Len(@) + 1), at |-> st.now])]
          /\ st' = [st EXCEPT !.srv[u] = [mode |-> "ok", tag |-> Tag(u, Len(pub[u]) + 1)]]
          /\ UNCHANGED << procs, ops, ended >>
Fail == \E u \in Urls : st.srv[u].mode = "ok" /\ st' = [st EXCEPT !.srv[u].mode = "down"] /\ UNCHANGED << procs, pub, ops, ended >>
Back == \E u \in Urls : st.srv[u].mode = "down" /\ st' = [st EXCEPT !.srv[u].mode = "ok"] /\ UNCHANGED << procs, pub, ops, ended >>
Pass == /\ Quiet /\ ops < MAXOPS /\ ops' = ops + 1    \* a lookup takes no time
        /\ \E d \in Delays : st' = [st EXCEPT !.now = @ + d] /\ UNCHANGED << procs, pub >> /\ ended' = NoProc
Next == Start \/ Work \/ Crash \/ Publish \/ Fail \/ Back \/ Pass
Spec == Init /\ [][Next]_vars

Has == ended.pc = "done"
Vers(u) == { pub[u][i].tag : i \in 1..Len(pub[u]) }
Idx(u, t) == CHOOSE i \in 1..Len(pub[u]) : pub[u][i].tag = t
(* what is returned was delivered for that very address *)
OnlyDelivered == Has => ended.res \in Vers(ended.u) \cup {"unavailable"}
(* a copy used without asking was still being published less than MaxAge ago *)
Fresh == Has /\ ended.req = 0 =>
           LET i == Idx(ended.u, ended.res) IN i = Len(pub[ended.u]) \/ st.now - pub[ended.u][i + 1].at < MaxAge
(* a stored copy is what the server published, and what is stored with a time can be read *)
StoredIsDelivered == \A u \in Urls : st.con[u] \in Vers(u) \cup {""} /\ (st.ts[u] # -1 => st.con[u] # "")
(* nothing younger than the offline limit is refused when the server is down *)
Fallback == Has /\ ended.res = "unavailable" =>
              \/ st.ts[ended.u] = -1
              \/ st.now - st.ts[ended.u] >= MaxAgeOffline
              \/ st.ts[ended.u] = st.now       \* another process stored it just now
=============================================================================
