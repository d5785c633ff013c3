---------------------------- MODULE Explanations ----------------------------
(* Downloading explanations and showing them.                               *)
(*  st: now; mode, v what the server answers; online: the stored download   *)
(*      ("" none, "bad" no TOML); last: time of the last attempt; stuck:    *)
(*      the record of attempts is beyond repair, nothing is tried any more. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TTL == 600
Start(t0) == [now |-> t0, mode |-> "down", v |-> "0", online |-> "", last |-> 0, stuck |-> FALSE]
Upd == [k |-> "update", pc |-> "try", got |-> "", res |-> "", req |-> 0]
Show == [k |-> "explain", pc |-> "show", got |-> "", res |-> "", req |-> 0]

(* alone: nobody else uses the record of attempts at the same time *)
Step(st, p, alone) ==
  LET end(s, r) == [st |-> s, p |-> [p EXCEPT !.pc = "done", !.res = r]]
      at(s, pc) == [st |-> s, p |-> [p EXCEPT !.pc = pc]]
  IN
  CASE p.pc = "try" ->
         (IF st.stuck \/ st.now < st.last + TTL THEN {end(st, "done")} ELSE {at(st, "mark")})
         \cup (IF alone THEN {} ELSE {end(st, "done")})
    [] p.pc = "mark" -> {at([st EXCEPT !.last = st.now], "ask")}
         \cup (IF alone THEN {} ELSE {at([st EXCEPT !.last = 0], "ask"), at([st EXCEPT !.stuck = TRUE], "ask"),
                                      end(st, "done"), end([st EXCEPT !.last = 0], "done"), end([st EXCEPT !.stuck = TRUE], "done")})
    [] p.pc = "ask" ->
         LET q == [p EXCEPT !.req = @ + 1] IN
         IF st.mode = "ok" THEN {[st |-> st, p |-> [q EXCEPT !.pc = "store", !.got = st.v]]}
         ELSE IF st.mode = "garbage" THEN {[st |-> st, p |-> [q EXCEPT !.pc = "store", !.got = "bad"]]}
         ELSE {[st |-> st, p |-> [q EXCEPT !.pc = "done", !.res = "done"]]}
    [] p.pc = "store" -> {end([st EXCEPT !.online = p.got], "done")}
    [] p.pc = "show" -> {end(st, IF st.online \in {"", "bad"} THEN "bundled" ELSE st.online)}
    [] OTHER -> {}
(* what a process that died in the middle may leave of the record of attempts *)
Wrecked(st, p) ==
  IF p.k = "update" /\ p.pc \in {"try", "mark", "ask"}
  THEN {st, [st EXCEPT !.last = st.now], [st EXCEPT !.last = 0], [st EXCEPT !.stuck = TRUE]} ELSE {st}
=============================================================================
