------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Recorded histories in guarded memory.  Each was executed with ordinary    *)
(* memory and with memory whose fresh bytes hold one junk or another; what   *)
(* the calls return is the same in all executions (no junk is read: Sound in  *)
(* Heap.tla).  The log of allocations and releases obeys Heap.tla's view of   *)
(* memory from outside: a block is released once, as it was allocated, while  *)
(* it is live; nothing outside a live block was written; and when the values   *)
(* of the history are gone nothing is left (Owned).                          *)
(*                                                                         *)
(* Events are <<id, size, align>>: id > 0 allocated, id < 0 released,        *)
(* <<0, 0, 0>> the end of an execution, <<0, what, id>> memory found damaged. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANT Check
Histories == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, agree, live, ok
vars == <<tid, l, agree, live, ok>>
Runs(t) == Histories[t].runs
Heap(t) == Histories[t].heap
Block == 64                     \* events per step
Steps(t) == (Len(Heap(t)) + Block - 1) \div Block
Longest(t) == CHOOSE n \in {Len(Runs(t)[r]) : r \in 1..Len(Runs(t))} \cup {Steps(t)} :
                 (\A r \in 1..Len(Runs(t)) : Len(Runs(t)[r]) <= n) /\ Steps(t) <= n

Event(s, e) ==
    CASE e[1] > 0 -> [live |-> s.live \cup {e}, ok |-> s.ok /\ \A x \in s.live : x[1] # e[1]]
      [] e[1] < 0 -> LET b == <<-e[1], e[2], e[3]>> IN [live |-> s.live \ {b}, ok |-> s.ok /\ b \in s.live]
      [] OTHER -> [live |-> {}, ok |-> s.ok /\ e[2] = 0 /\ s.live = {}]
Apply(s, es) == FoldLeft(Event, s, es)

Init == tid \in 1..Len(Histories) /\ l = 1 /\ agree = TRUE /\ live = {} /\ ok = TRUE
Next == /\ l <= Longest(tid)
        /\ agree' = \A r \in 1..Len(Runs(tid)) : IF l <= Len(Runs(tid)[1]) THEN l <= Len(Runs(tid)[r]) /\ Runs(tid)[r][l] = Runs(tid)[1][l]
                                                 ELSE l > Len(Runs(tid)[r])
        /\ LET n == Len(Heap(tid))
               s == Apply([live |-> live, ok |-> TRUE], SubSeq(Heap(tid), (l - 1) * Block + 1, IF l * Block < n THEN l * Block ELSE n))
           IN live' = s.live /\ ok' = s.ok
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
(* violated with CONSTANT Check = {"C19"} only *)
Held == "C19" \in Check => agree /\ ok
=============================================================================
