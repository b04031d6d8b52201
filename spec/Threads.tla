------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Callers in several threads, sharing indices they only read and owning   *)
(* indices they change.  A call is begun, computed and returned in separate *)
(* steps, so calls overlap in every possible way.  The library keeps no     *)
(* state of its own between or besides calls: what a call returns is a      *)
(* function of its arguments, whatever else goes on (NeverWrong), and       *)
(* nothing is changed but what the caller owns (C18).                       *)
(*                                                                         *)
(* Memo puts a hidden cache into the library, to show that the statement    *)
(* is not vacuous: "depth" keys it by the call and the depth only, "torn"   *)
(* keys it by everything but fills it in two steps, "count" counts calls    *)
(* and fails when the count wraps.  TLC rejects all three.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, MortonDesign

CONSTANTS D, W, Callers, Memo

VARIABLES shared,   \* indices every caller reads
          own,      \* [Callers -> index of its own]
          call,     \* [Callers -> call in progress]
          memo,     \* the hidden cache, if any
          wrong     \* a call returned something else than its meaning
vars == <<shared, own, call, memo, wrong>>

Cells(n) == UNION {[1..m -> {0, 2^D - 1}] : m \in 0..n}
Idle == [st |-> "idle"]
Wraps == <<3>>
NoMemo == [key |-> <<>>, res |-> None]

Calls == {[op |-> "get", a |-> l, src |-> s, o |-> ""] : l \in 0..1, s \in {"one", "own"}}
    \cup {[op |-> "anc", a |-> 1, src |-> s, o |-> ""] : s \in {"one", "two", "own"}}
    \cup {[op |-> "inv", a |-> 0, src |-> s, o |-> ""] : s \in {"one", "two"}}
    \cup {[op |-> "set", a |-> l, src |-> "own", o |-> ""] : l \in 0..1}
    \cup {[op |-> "grid", a |-> 0, src |-> s, o |-> DefaultOrdering(D)] : s \in {"one", "own"}}
    \cup {[op |-> "cmp", a |-> 0, src |-> "one", o |-> ""]}

Arg(t, c) == CASE c.src = "one" -> shared[1] [] c.src = "two" -> shared[2] [] c.src = "own" -> own[t]
(* the meaning of a call *)
Value(c, v) ==
    CASE c.op = "get" -> GetLevel(v, c.a)
      [] c.op = "set" -> SetLevel(v, c.a, 1)
      [] c.op = "anc" -> Ancestor(v, c.a)
      [] c.op = "inv" -> Ok(Inverted(v))
      [] c.op = "grid" -> Ok(ToGrid(v, D, c.o))
      [] c.op = "cmp" -> Ok(CmpCells(v.c, shared[2].c))

Key(c, v) == IF Memo = "depth" THEN <<c.op, c.a, Len(v.c)>> ELSE <<c.op, c.a, v.k, v.c>>
Begin(t) == /\ call[t].st = "idle"
            /\ \E c \in Calls : call' = [call EXCEPT ![t] = [st |-> "begun", c |-> c, v |-> Arg(t, c), res |-> None]]
            /\ UNCHANGED <<shared, own, memo, wrong>>
Compute(t) ==
    /\ call[t].st = "begun"
    /\ LET k == Key(call[t].c, call[t].v)
           hit == Memo \in {"depth", "torn"} /\ memo.key = k
           res == IF hit THEN memo.res
                  ELSE IF Memo = "count" /\ memo.key = Wraps THEN Panic
                  ELSE Value(call[t].c, call[t].v)
       IN  /\ call' = [call EXCEPT ![t].st = IF ~hit /\ Memo = "torn" THEN "keyed" ELSE "done", ![t].res = res]
           /\ memo' = CASE hit \/ Memo = "none" -> memo
                        [] Memo = "count" -> [memo EXCEPT !.key = IF @ = <<>> THEN <<1>> ELSE IF @ = Wraps THEN <<0>> ELSE <<@[1] + 1>>]
                        [] Memo = "torn" -> [memo EXCEPT !.key = k]
                        [] OTHER -> [key |-> k, res |-> res]
    /\ UNCHANGED <<shared, own, wrong>>
Fill(t) == /\ call[t].st = "keyed"
           /\ memo' = [memo EXCEPT !.res = call[t].res]
           /\ call' = [call EXCEPT ![t].st = "done"]
           /\ UNCHANGED <<shared, own, wrong>>
Return(t) ==
    /\ call[t].st = "done"
    /\ LET c == call[t].c  r == call[t].res
       IN  /\ wrong' = (wrong \/ r # Value(c, call[t].v) \/ call[t].v # Arg(t, c))
           /\ own' = IF c.op \in {"set", "anc", "inv"} /\ r.out = "ok" THEN [own EXCEPT ![t] = r.v] ELSE own
    /\ call' = [call EXCEPT ![t] = Idle]
    /\ UNCHANGED <<shared, memo>>

Init == /\ \E a \in Cells(2), b \in Cells(1) : shared = <<Idx("S", a), Idx("D", b)>>
        /\ own = [t \in Callers |-> Idx("S", <<1>>)]
        /\ call = [t \in Callers |-> Idle]
        /\ memo = NoMemo /\ wrong = FALSE
Next == \E t \in Callers : Begin(t) \/ Compute(t) \/ Fill(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

NeverWrong == ~wrong
SharedKept == [][shared' = shared]_vars
OwnKept == [][\A t \in Callers : (call'[t] = call[t]) => own'[t] = own[t]]_vars
=============================================================================
