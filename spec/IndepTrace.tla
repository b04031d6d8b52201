----------------------------- MODULE IndepTrace -----------------------------
(***************************************************************************)
(* Self-composition of recorded histories.  Every script of calls was       *)
(* executed several times on the real code: alone on a fresh thread, with   *)
(* unrelated calls between its calls, and in several threads at once, which *)
(* share the indices they read.  Since a call's result is a function of its *)
(* arguments (Threads.tla, NeverWrong), the executions advance in lock step: *)
(* event by event they show the same call with the same outcome.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANT Check
Scripts == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, agree
Runs(t) == Scripts[t].runs
Init == tid \in 1..Len(Scripts) /\ l = 1 /\ agree = TRUE
Longest(t) == CHOOSE n \in {Len(Runs(t)[r]) : r \in 1..Len(Runs(t))} : \A r \in 1..Len(Runs(t)) : Len(Runs(t)[r]) <= n
Next == /\ l <= Longest(tid)
        /\ agree' = \A r \in 1..Len(Runs(tid)) : l <= Len(Runs(tid)[r]) /\ Runs(tid)[r][l] = Runs(tid)[1][l]
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, agree>>
(* violated with CONSTANT Check = {"C18"} only *)
Held == "C18" \in Check => agree
=============================================================================
