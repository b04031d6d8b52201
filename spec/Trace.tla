-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates histories recorded from the real code against the design.     *)
(* Each trace is a history of public calls over a heap of three registers  *)
(* of one index family; after every call the harness logs the arguments,   *)
(* the outcome and what every register shows.  The specification computes  *)
(* the outcome MortonDesign prescribes for that call in the current        *)
(* abstract heap, and judges the logged one: each disagreement is charged  *)
(* to the property it breaks.  The heap is then set to what was observed,  *)
(* so that one disagreement does not hide the ones after it.               *)
(*                                                                         *)
(* All traces are validated in one run: Init picks the trace.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, MortonDesign

CONSTANT Check        \* the properties to judge

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, reg, bad
vars == <<tid, l, reg, bad>>

Big == 999999999      \* logged for any number too large for TLC
NoIdx == [k |-> "-", c |-> <<>>]
Seen(o) == Idx(o.k, o.c)
Consistent(o) == o.n = Len(o.c) /\ o.it

Bounded == {"new", "zer", "fg", "desc", "chd", "cnv", "set", "get"}
Owner == [new |-> "C01", def |-> "C01", zer |-> "C01", get |-> "C01", set |-> "C03", copy |-> "C03",
          tg |-> "C04", fg |-> "C05", ff |-> "C05", anc |-> "C06", par |-> "C06", wd |-> "C06",
          desc |-> "C06", chd |-> "C06", cmp |-> "C07", sort |-> "C07", cnv |-> "C09", nam |-> "C10",
          dsp |-> "C10", cml |-> "C10", it |-> "C01", inv |-> "C11", raw |-> "C16", frw |-> "C16"]
Stores == {"new", "def", "zer", "copy", "anc", "par", "wd", "desc", "chd", "inv", "cnv", "fg", "ff", "frw"}

(* what the design prescribes for a call that stores its result *)
Prescribed(e, d, w) ==
    CASE e.op = "new"  -> FromCells(e.k, d, w, e.c)
      [] e.op = "def"  -> Ok(DefaultIdx(e.k, d, w))
      [] e.op = "zer"  -> ZeroedIdx(e.k, d, w, e.n)
      [] e.op = "copy" -> Ok(reg[e.src])
      [] e.op = "anc"  -> Ancestor(reg[e.src], e.g)
      [] e.op = "par"  -> Parent(reg[e.src])
      [] e.op = "wd"   -> WithDepth(reg[e.src], e.n)
      [] e.op = "desc" -> Descendant(reg[e.src], d, w, e.p)
      [] e.op = "chd"  -> Child(reg[e.src], d, w, e.x)
      [] e.op = "inv"  -> Ok(Inverted(reg[e.src]))
      [] e.op = "cnv"  -> Convert(reg[e.src], e.k, d, w)
      [] e.op = "fg"   -> FromGrid(e.k, d, w, e.g, e.n, e.o)
      [] e.op = "ff"   -> FromGrid("F", d, w, e.g, 0, e.o)
      [] e.op = "frw"  -> Ok(Idx(e.k, CellsOfRaw(e.bits, d, e.n)))

Own(e) == {Owner[e.op]} \cup (IF e.op \in Bounded THEN {"C02"} ELSE {})
SameOutcome(e, R) == e.out = R.out /\ (R.out = "err" => e.max = R.max)

(* registers other than the target show what they showed before *)
Others(e, t) == IF \A i \in 1..Len(reg) : i # t => (Seen(e.regs[i]) = reg[i] /\ Consistent(e.regs[i]))
                THEN {} ELSE {"C03"}

JudgeStore(e, d, w) ==
    LET R == TLCEval(Prescribed(e, d, w))
        t == IF e.out = "ok" THEN e.dst ELSE 0
    IN  Others(e, t) \cup
        IF ~SameOutcome(e, R) THEN Own(e)
        ELSE IF e.out = "ok" /\ (Seen(e.regs[t]) # R.v \/ ~Consistent(e.regs[t])) THEN Own(e)
        ELSE {}

JudgeSet(e) ==
    LET R == SetLevel(reg[e.src], e.l, e.x)
        v == IF R.out = "ok" THEN R.v ELSE reg[e.src]
    IN  Others(e, e.src) \cup
        IF e.out # R.out THEN {"C02", "C03"}
        ELSE IF Seen(e.regs[e.src]) # v \/ ~Consistent(e.regs[e.src])
             THEN (IF R.out = "ok" THEN {"C03"} ELSE {"C02", "C03"})
             ELSE {}
JudgeGet(e) ==
    LET R == GetLevel(reg[e.src], e.l)
    IN  IF e.out = R.out /\ (e.out = "ok" => e.v = R.v) THEN {} ELSE {"C01", "C02"}
JudgeGrid(e, d) ==
    LET g == ToGrid(reg[e.src], d, e.o)
    IN  IF e.out = "ok" /\ \A a \in 1..d : e.g[a] = TrimBits(g[a]) THEN {} ELSE {"C04"}
JudgeCmp(e) ==
    LET a == reg[e.a]  b == reg[e.b]
        o == CmpCells(a.c, b.c)
        same == a = b
    IN  IF e.out # "ok" THEN {"C07", "C08"}
        ELSE (IF e.o = o /\ e.p = o /\ e.rel = <<o = "lt", o # "gt", o = "gt", o # "lt", TRUE>> /\ (e.o = "eq") = e.eq
              THEN {} ELSE {"C07"})
             \cup (IF e.eq = same /\ e.ne = ~same /\ (same => e.heq) THEN {} ELSE {"C08"})
JudgeSort(e) == IF e.out = "ok" /\ e.res = SortCells(e.in) THEN {} ELSE {"C07"}
JudgeName(e, d) == IF e.out = "ok" /\ e.s = Name(reg[e.src], d, e.nm) THEN {} ELSE {"C10"}
JudgeDisplay(e, d) ==
    LET s == DisplayNames([i \in 1..Len(e.srcs) |-> reg[e.srcs[i]]], d, e.nm)
    IN  IF e.out = "ok" /\ Len(e.s) > 0 /\ \A i \in 1..Len(e.s) : e.s[i] = s THEN {} ELSE {"C10"}
JudgeLists(e) ==
    LET L(ids) == [i \in 1..Len(ids) |-> reg[ids[i]].c]
        o == CmpLists(L(e.as), L(e.bs))
    IN  IF /\ e.out = "ok" /\ e.o = o /\ e.p = o /\ e.rel = <<o = "lt", o # "gt", o = "gt", o # "lt", TRUE>>
           /\ e.eq = (o = "eq") /\ e.ne = ~e.eq
        THEN {} ELSE {"C10"}
(* iterate the index (or a storage of its cells): take e.n cells, then one call *)
JudgeIter(e) ==
    LET c == reg[e.src].c
        u == [c |-> c, p |-> IF e.n < Len(c) THEN e.n ELSE Len(c)]
        N == CurNth(u, IF e.f = "next" THEN 0 ELSE e.j)
        good == CASE e.f \in {"next", "nth"} -> e.y = N.y /\ e.rest = Rest(N.u) /\ e.fused
                  [] e.f = "last"  -> e.y = CurLast(u)
                  [] e.f = "every" -> e.y = CurEvery(u, e.j)
                  [] e.f = "rest"  -> e.y = Rest(u)
                  [] e.f = "skip"  -> e.y = (IF e.j < Left(u) THEN <<CurNth(u, e.j).y[1]>> \o Rest(CurNth(u, e.j).u) ELSE <<>>)
                  [] e.f = "count" -> e.lo = Left(u)
                  [] e.f = "hint"  -> e.rest = Rest(u) /\ e.lo <= Left(u) /\ (e.hi = -1 \/ e.hi >= Left(u)) /\ e.fused
    IN  IF e.out = "ok" /\ good THEN {} ELSE {"C01"}
(* up e.g levels, down e.p, the position: high bits of the own position, then those of the path *)
JudgeNest(e, d) ==
    LET v == reg[e.src]
        own == ToGrid(v, d, e.o)
        sub == ToGrid(Idx("D", e.p), d, e.o)
        keep == Len(v.c) - e.g
    IN  IF e.out = "ok" /\ \A a \in 1..d : e.pos[a] = TrimBits(Prefix(own[a], keep) \o sub[a]) THEN {} ELSE {"C17"}
(* nodes of one depth are ordered like their interleaved coordinates *)
JudgeCurve(e, d) ==
    LET z(g) == LET h == TLCEval([a \in 1..d |-> LowBits(g[a], e.n)])
                IN  FlattenSeq([y \in 1..e.n |-> [i \in 1..d |-> h[AxisOfBit(e.o, d - i)][y]]])
        o == CmpCells(z(e.x), z(e.y))
    IN  IF e.out = "ok" /\ e.c = o THEN {} ELSE {"C17"}
JudgeRaw(e, d, w) == IF e.out = "ok" /\ e.bits = RawBits(reg[e.src].c, d, w) THEN {} ELSE {"C16"}

Judge(e, d, w) ==
    CASE e.op \in Stores -> JudgeStore(e, d, w)
      [] e.op = "set"  -> JudgeSet(e)
      [] e.op = "crash" -> Check
      [] OTHER -> Others(e, 0) \cup
           CASE e.op = "get"  -> JudgeGet(e)
             [] e.op = "tg"   -> JudgeGrid(e, d)
             [] e.op = "cmp"  -> JudgeCmp(e)
             [] e.op = "nst"  -> JudgeNest(e, d)
             [] e.op = "zc"   -> JudgeCurve(e, d)
             [] e.op = "sort" -> JudgeSort(e)
             [] e.op = "nam"  -> JudgeName(e, d)
             [] e.op = "dsp"  -> JudgeDisplay(e, d)
             [] e.op = "cml"  -> JudgeLists(e)
             [] e.op = "it"   -> JudgeIter(e)
             [] e.op = "raw"  -> JudgeRaw(e, d, w)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ reg = [i \in 1..3 |-> NoIdx]
        /\ bad = {}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
           IN  /\ bad' = Judge(e, Traces[tid].d, Traces[tid].w)
               /\ reg' = [i \in 1..3 |-> Seen(e.regs[i])]
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

(* the recorded history is one the design allows, as far as Check goes *)
Held == bad \cap Check = {}
=============================================================================
