------------------------------- MODULE BitNat -------------------------------
(***************************************************************************)
(* Natural numbers as bit sequences, least significant bit first, for      *)
(* values beyond TLC's integers.  Sequences may have any length; missing   *)
(* high bits are zero.                                                      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

BAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
BTrim(x)  == LET nz == {i \in 1..Len(x) : x[i] # 0}
             IN  IF nz = {} THEN <<>> ELSE SubSeq(x, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
BFit(x, w) == [i \in 1..w |-> BAt(x, i)]
BIsZero(x) == \A i \in 1..Len(x) : x[i] = 0
BMax(a, b) == IF a > b THEN a ELSE b

BLess(x, y) ==
    LET n == BMax(Len(x), Len(y))
        D == {i \in 1..n : BAt(x, i) # BAt(y, i)}
    IN  D # {} /\ LET m == CHOOSE i \in D : \A j \in D : j <= i IN BAt(x, m) < BAt(y, m)
BAdd(x, y) ==
    LET n == BMax(Len(x), Len(y)) + 1
        Step(acc, i) == LET s == BAt(x, i) + BAt(y, i) + acc[2]
                        IN  <<Append(acc[1], s % 2), s \div 2>>
    IN  TLCEval(FoldLeft(Step, <<<<>>, 0>>, [i \in 1..n |-> i])[1])
(* x - y for y <= x *)
BSub(x, y) ==
    LET Step(acc, i) == LET s == BAt(x, i) - BAt(y, i) - acc[2]
                        IN  <<Append(acc[1], IF s % 2 = 0 THEN 0 ELSE 1), IF s < 0 THEN 1 ELSE 0>>
    IN  TLCEval(FoldLeft(Step, <<<<>>, 0>>, [i \in 1..Len(x) |-> i])[1])
(* x mod y for y > 0, by long division *)
BMod(x, y) ==
    LET Step(r, i) == LET s == TLCEval(BTrim(<<BAt(x, Len(x) + 1 - i)>> \o r))
                      IN  IF BLess(s, y) THEN s ELSE BTrim(BSub(s, y))
    IN  TLCEval(FoldLeft(Step, <<>>, [i \in 1..Len(x) |-> i]))
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o BOf(n \div 2)

(* checked against the integers *)
BitNatFacts ==
    \A a, b \in 0..17 :
        /\ BTrim(BAdd(BOf(a), BOf(b))) = BOf(a + b)
        /\ BLess(BOf(a), BOf(b)) = (a < b)
        /\ (b <= a) => BTrim(BSub(BOf(a), BOf(b))) = BOf(a - b)
        /\ (b > 0) => BTrim(BMod(BOf(a * 7 + 3), BOf(b))) = BOf((a * 7 + 3) % b)
ASSUME BitNatFacts
=============================================================================
