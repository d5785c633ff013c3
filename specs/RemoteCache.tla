---------------------------- MODULE RemoteCache ----------------------------
(* Stored copies of remote configurations, one step per file operation.     *)
(*  st: now; srv[u] = [mode, tag] what the server does for address u;       *)
(*      con[u] stored content ("" none); ts[u] its stored time (-1 none).   *)
(*  A process p reads address p.u; its steps are those of one lookup.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxAge == 300              \* a copy younger than this is used
MaxAgeOffline == 720000    \* a copy younger than this is used if there is no better

Proc(u, space) == [u |-> u, pc |-> "age", got |-> "", res |-> "", req |-> 0, space |-> space]
Finish(p, r) == [p EXCEPT !.pc = "done", !.res = r]

(* the set of possible next [st, p] *)
Step(st, p) ==
  LET u == p.u
      to(pc) == {[st |-> st, p |-> [p EXCEPT !.pc = pc]]}
      young(max) == st.ts[u] # -1 /\ st.now - st.ts[u] < max
  IN
  CASE p.pc = "age"   -> IF young(MaxAge) THEN to("read") ELSE to("ask")
    [] p.pc = "read"  -> IF st.con[u] = "" THEN to("ask") ELSE {[st |-> st, p |-> Finish(p, st.con[u])]}
    [] p.pc = "ask"   -> IF st.srv[u].mode = "ok"
                         THEN {[st |-> st, p |-> [p EXCEPT !.pc = "store", !.got = st.srv[u].tag, !.req = @ + 1]]}
                         ELSE {[st |-> st, p |-> [p EXCEPT !.pc = "age2", !.req = @ + 1]]}
    [] p.pc = "store" -> {[st |-> [st EXCEPT !.con[u] = p.got], p |-> [p EXCEPT !.pc = "stamp"]]}
                         \cup (IF p.space THEN {} ELSE {[st |-> st, p |-> Finish(p, p.got)]})
    [] p.pc = "stamp" -> {[st |-> [st EXCEPT !.ts[u] = st.now], p |-> Finish(p, p.got)]}
                         \cup (IF p.space THEN {} ELSE {[st |-> st, p |-> Finish(p, p.got)]})
    [] p.pc = "age2"  -> IF young(MaxAgeOffline) THEN to("read2") ELSE {[st |-> st, p |-> Finish(p, "unavailable")]}
    [] p.pc = "read2" -> {[st |-> st, p |-> Finish(p, IF st.con[u] = "" THEN "unavailable" ELSE st.con[u])]}
    [] OTHER -> {}

Empty(urls, t0) == [now |-> t0, srv |-> [u \in urls |-> [mode |-> "404", tag |-> ""]],
                    con |-> [u \in urls |-> ""], ts |-> [u \in urls |-> -1]]
=============================================================================
