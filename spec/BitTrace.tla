------------------------------ MODULE BitTrace ------------------------------
(***************************************************************************)
(* Validates histories of the library's bit-level leaves, recorded from    *)
(* the real code, against their laws.  A history works on one storage word *)
(* (an unsigned integer of w bits, or a byte vector, w = 0) that is read,  *)
(* written and replaced; x is its content, least significant bit first.    *)
(* Spreading, aligning and cell calls are interleaved; they have no state. *)
(* Numbers are logged as bit sequences because TLC's integers are small.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, MortonDesign, BitNat

CONSTANT Check

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, x, bad
vars == <<tid, l, x, bad>>

Zs(n)       == [i \in 1..n |-> 0]
CeilBits(n) == 8 * ((n + 7) \div 8)
Rng(s, e)   == SubSeq(x, s + 1, e)
Splice(s, e, v) == SubSeq(x, 1, s) \o v \o SubSeq(x, e + 1, Len(x))
ByteSeq(bits) == [i \in 1..(Len(bits) \div 8) |-> SubSeq(bits, 8 * i - 7, 8 * i)]

(* the content a call leaves in the word *)
After(e, w) ==
    CASE e.op = "init"  -> e.v
      [] e.op = "set"   -> Splice(e.s, e.e, e.v)
      [] e.op = "setu"  -> Splice(e.s, e.e, e.v)
      [] e.op = "from"  -> IF w = 0 THEN e.v ELSE BFit(e.v, w)
      [] e.op = "slice" ->      \* bytes in memory order; missing ones are zero, excess ones ignored
           LET n  == IF w = 0 THEN Len(e.v) ELSE w
               b  == ByteSeq(BFit(e.v, n))
           IN  FlattenSeq(IF e.be THEN RevSeq(b) ELSE b)
      [] OTHER -> x
(* the value a call returns *)
Returned(e, w) ==
    CASE e.op = "get"  -> BFit(Rng(e.s, e.e), IF w = 0 THEN CeilBits(e.e - e.s) ELSE w)
      [] e.op = "getu" -> BFit(Rng(e.s, e.e), 64)
      [] e.op = "as"   -> BFit(x, e.u)
      [] e.op = "view" -> x
      [] OTHER -> <<>>
JudgeWord(e, w) ==
    IF e.out = "ok" /\ e.x = After(e, w) /\ e.r = Returned(e, w) THEN {} ELSE {"C12"}

(* C13: bit i of the low n bits goes to slot f*i + o, nothing else is set *)
SpreadPar == [before8 |-> <<4, 2, 0, 8>>, behind8 |-> <<4, 2, 1, 8>>, before16 |-> <<8, 2, 0, 16>>,
              two8 |-> <<8, 3, 0, 32>>, two32 |-> <<21, 3, 0, 64>>]
JudgeSpread(e) ==
    LET p == SpreadPar[e.f]
        y == [j \in 1..p[4] |-> IF j - 1 >= p[3] /\ (j - 1 - p[3]) % p[2] = 0 /\ (j - 1 - p[3]) \div p[2] < p[1]
                                THEN BAt(e.v, ((j - 1 - p[3]) \div p[2]) + 1) ELSE 0]
    IN  IF e.out = "ok" /\ e.r = y THEN {} ELSE {"C13"}

(* C14: the smallest multiple of a not below v, when it fits in e.w bits *)
JudgeAlign(e) ==
    IF BIsZero(e.a) THEN IF e.out = "ok" /\ BTrim(e.r) = BTrim(e.v) THEN {} ELSE {"C14"}
    ELSE LET m == BMod(e.v, e.a)
             next == IF BIsZero(m) THEN BTrim(e.v) ELSE BTrim(BAdd(e.v, BSub(e.a, m)))
         IN  IF Len(next) > e.w \/ (e.out = "ok" /\ BTrim(e.r) = next) THEN {} ELSE {"C14"}

(* C15 *)
JudgeCell(e) ==
    LET ok == Len(BTrim(e.v)) <= e.d
    IN  IF e.out = (IF ok THEN "ok" ELSE "err") /\ (ok => \A i \in 1..Len(e.r) : e.r[i] = BTrim(e.v)) /\ (ok => Len(e.r) = 4)
        THEN {} ELSE {"C15"}
JudgeCorner(e) ==       \* the corner of cell e.c under ordering e.o, on each axis
    IF e.out = "ok" /\ e.r = [a \in 1..e.d |-> CellBit(e.c, BitOfAxis(e.o, a))] THEN {} ELSE {"C15"}
JudgeShifts(e) ==
    IF e.out = "ok" /\ e.r = [a \in 1..e.d |-> BitOfAxis(e.o, a)] THEN {} ELSE {"C15"}
JudgeCellCmp(e) ==
    LET o == IF e.a < e.b THEN "lt" ELSE IF e.a > e.b THEN "gt" ELSE "eq"
    IN  IF e.out = "ok" /\ e.o = o /\ e.p = o /\ e.eq = (o = "eq") THEN {} ELSE {"C15"}

Judge(e, w) ==
    CASE e.op \in {"init", "set", "setu", "from", "slice", "get", "getu", "as", "view"} -> JudgeWord(e, w)
      [] e.op = "spread" -> JudgeSpread(e)
      [] e.op = "align"  -> JudgeAlign(e)
      [] e.op = "cell"   -> JudgeCell(e)
      [] e.op = "corner" -> JudgeCorner(e)
      [] e.op = "shifts" -> JudgeShifts(e)
      [] e.op = "ccmp"   -> JudgeCellCmp(e)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1 /\ x = <<>> /\ bad = {}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
           IN  /\ bad' = Judge(e, Traces[tid].w)
               /\ x' = IF "x" \in DOMAIN e THEN e.x ELSE x
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Held == bad \cap Check = {}
=============================================================================
