------------------------------- MODULE Session -------------------------------
(* Checks one after another in one process.                                 *)
(*                                                                          *)
(* disk: path -> content.  A check is [files, opts]: what it finds depends  *)
(* on nothing but the contents of the files it can see and its options.     *)
(* The process keeps things between checks (syntax trees of modules by      *)
(* their name, patches of the linters, translations loaded); the machine    *)
(* has them as explicit state, the laws say that they never show.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* the problems of one check of files (a set), an abstract function *)
Finds(disk, files, opts) == { << f, disk[f], opts >> : f \in files }
=============================================================================
