------------------------------ MODULE Versions ------------------------------
(* Looking for newer versions, one step per operation on the stored file.   *)
(*  st: now; mode, rels = what the package index answers: Seq([v, builds,   *)
(*      yanked]); data: per package its version and time in the file; hold: the *)
(*      process whose truncated file it is (0: the file is complete).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* versions from the oldest to the newest *)
Order == << "0.9", "4.2.9", "4.3.0rc1", "4.3.0", "4.3.1.dev1", "4.3.1", "4.3.1.post1", "4.3.2a1", "4.3.2", "4.3.10", "4.10.0rc2", "4.10.0", "5.0.0.dev3", "5.0" >>
Pre == {"4.3.0rc1", "4.3.1.dev1", "4.3.2a1", "4.10.0rc2", "5.0.0.dev3"}
Known(v) == \E i \in 1..Len(Order) : Order[i] = v
Rank(v) == CHOOSE i \in 1..Len(Order) : Order[i] = v
Newer(a, b) == Known(a) /\ Known(b) /\ Rank(a) > Rank(b)

(* the versions pip would upgrade to *)
Full(rels) == { rels[i].v : i \in { j \in 1..Len(rels) :
                  Known(rels[j].v) /\ rels[j].v \notin Pre /\ rels[j].builds > 0 /\ ~rels[j].yanked } }
Newest(rels) == LET f == Full(rels) IN
  IF f = {} THEN "none" ELSE CHOOSE v \in f : \A w \in f : w = v \/ Newer(v, w)

Pkgs == {"edulint", "other"}
Nothing == [g \in Pkgs |-> [ver |-> "none", ts |-> 0]]
Start(t0) == [now |-> t0, mode |-> "down", rels |-> << >>, data |-> Nothing, hold |-> 0]

(* one lookup; k identifies the process; res is what it answers *)
Look(k, pkg, ttl) == [k |-> k, pkg |-> pkg, ttl |-> ttl, pc |-> "read", got |-> "none", data |-> Nothing, res |-> "none", req |-> 0]
File(st) == IF st.hold = 0 THEN st.data ELSE Nothing     \* a truncated file says nothing
Write(st, p, d) ==     \* two writers at once may leave a damaged file
  LET good == [st EXCEPT !.data = d, !.hold = 0]
      bad == [st EXCEPT !.data = Nothing, !.hold = 0]
  IN IF st.hold = p.k THEN {good} ELSE {good, bad}
Step(st, p) ==
  LET at(s, pc) == [st |-> s, p |-> [p EXCEPT !.pc = pc]]
      end(s, r) == [st |-> s, p |-> [p EXCEPT !.pc = "done", !.res = r]]
      mine == File(st)[p.pkg]
  IN
  CASE p.pc = "read" -> {IF st.now < mine.ts + p.ttl THEN end(st, mine.ver) ELSE at(st, "load1")}
    [] p.pc = "load1" -> {[st |-> st, p |-> [p EXCEPT !.pc = "open1", !.data = File(st)]]}
    [] p.pc = "open1" -> {at([st EXCEPT !.hold = p.k], "write1")}
    [] p.pc = "write1" -> { at(s, "ask") : s \in Write(st, p, [p.data EXCEPT ![p.pkg].ts = st.now]) }
    [] p.pc = "ask" -> {IF st.mode = "ok" /\ Newest(st.rels) # "none"
                        THEN [st |-> st, p |-> [p EXCEPT !.pc = "load2", !.got = Newest(st.rels), !.req = @ + 1]]
                        ELSE [st |-> st, p |-> [p EXCEPT !.pc = "done", !.res = "none", !.req = @ + 1]]}
    [] p.pc = "load2" -> {[st |-> st, p |-> [p EXCEPT !.pc = "open2", !.data = File(st)]]}
    [] p.pc = "open2" -> {at([st EXCEPT !.hold = p.k], "write2")}
    [] p.pc = "write2" -> { end(s, p.got) : s \in Write(st, p, [p.data EXCEPT ![p.pkg].ver = p.got]) }
    [] OTHER -> {}
Announces(res, local) == Newer(res, local)
=============================================================================
