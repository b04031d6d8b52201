----------------------------- MODULE MortonImpl -----------------------------
(***************************************************************************)
(* The implementation-shaped layer: how src/indices packs an index into a  *)
(* word (fixed, static) or a byte vector (dynamic), and the algorithms it  *)
(* runs on that representation, transcribed onto the symbolic words of     *)
(* BitWords.  MortonCases checks that each of them refines MortonDesign,   *)
(* from every canonical state of every real width.                         *)
(*                                                                         *)
(* A cell is a token: 0 is cell zero, any other token stands for an        *)
(* arbitrary cell.  Bit b of token t is the bit token BT(t, b).            *)
(*                                                                         *)
(* Legacy is the set of original defects to model (see known_findings.txt) *)
(* - empty for the current tree.                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, MortonDesign, BitWords

CONSTANT Legacy

BT(t, b)   == IF t = 0 THEN 0 ELSE t * 4 + b
CellWord(t, d, w) == TLCEval([i \in 1..w |-> IF i <= d THEN BT(t, i - 1) ELSE 0])
Garbage == -3
(* what a reader of the d bits bs takes for a cell *)
DecodeCell(bs) ==
    IF \A i \in 1..Len(bs) : bs[i] = 0 THEN 0
    ELSE IF bs[1] > 0 /\ \A i \in 1..Len(bs) : bs[i] = BT(bs[1] \div 4, i - 1)
         THEN bs[1] \div 4 ELSE Garbage

VecBytes(d, n) == (n * d + 7) \div 8
(* canonical representation of a cell sequence in w bits *)
PackW(d, w, c) ==
    TLCEval([i \in 1..w |->
        LET l == (w - i) \div d
        IN  IF l < Len(c) THEN BT(c[l + 1], (i - 1) - (w - (l + 1) * d)) ELSE 0])
PackV(d, c) == Bytes(PackW(d, 8 * VecBytes(d, Len(c)), c))

(* --- cell access (storage.rs) ------------------------------------------- *)
WSetCell(d, x, l, t) ==
    LET w == Len(x) IN
    IF (l + 1) * d > w THEN PoisonWord(w)
    ELSE WSet(x, w - (l + 1) * d, w - l * d, CellWord(t, d, w))
WGetCell(d, x, l) ==
    LET w == Len(x) IN
    IF (l + 1) * d > w THEN Garbage
    ELSE DecodeCell(SubSeq(WGet(x, w - (l + 1) * d, w - l * d), 1, d))
VSetCell(d, vec, l, t) ==
    LET s == 8 * Len(vec) - (l + 1) * d
    IN  VSet(vec, s, s + d, Bytes(CellWord(t, d, 64)))
VGetCell(d, vec, l) ==
    LET s == 8 * Len(vec) - (l + 1) * d
    IN  DecodeCell(SubSeq(VGetUsize(vec, s, s + d), 1, d))

(* --- building from cells ------------------------------------------------- *)
Enum(s, from) == [i \in 1..Len(s) |-> <<from + i - 1, s[i]>>]
WSetCells(d, x, from, c) == FoldLeft(LAMBDA acc, p : WSetCell(d, acc, p[1], p[2]), x, Enum(c, from))
VSetCells(d, v, from, c) == FoldLeft(LAMBDA acc, p : VSetCell(d, acc, p[1], p[2]), v, Enum(c, from))
WBuild(d, w, c) == WSetCells(d, ZeroWord(w), 0, c)
VBuild(d, c)    == VSetCells(d, ZeroVec((Len(c) * d + 7) \div 8), 0, c)
(* DynamicStorage{2,3}D::zeroed *)
VZeroed(d, n)   == ZeroVec(IF d = 3 THEN (n * 3 + 7) \div 8
                           ELSE IF "zeroed" \in Legacy THEN (n + 7) \div 4 ELSE (n + 3) \div 4)

(* --- navigation ---------------------------------------------------------- *)
WAncestor(d, x, n, g) ==
    FoldLeft(LAMBDA acc, l : WSetCell(d, acc, l, 0), x, Span(n - g, n))
WDescendant(d, x, n, path) == WSetCells(d, x, n, path)
VAncestor(d, v, n, g) ==
    LET nd   == n - g
        nb   == VecBytes(d, nd)
        skip == VecBytes(d, n) - nb
        kept == SubSeq(v, skip + 1, Len(v))
        inFirst == (nd * d) % 8
        left == 8 - inFirst
    IN  IF nb > 0 /\ inFirst > 0
        THEN [kept EXCEPT ![1] = TLCEval([i \in 1..8 |-> IF i <= left THEN 0 ELSE @[i]])]
        ELSE kept
VDescendant(d, v, n, path) ==
    LET add == VecBytes(d, n + Len(path)) - VecBytes(d, n)
    IN  VSetCells(d, ZeroVec(add) \o v, n, path)

(* MortonIndex::inverted *)
WInverted(d, x, n) ==
    FoldLeft(LAMBDA acc, l : WSetCell(d, acc, n - l - 1, WGetCell(d, x, l)), x, Span(0, n))
VInverted(d, v, n) ==
    FoldLeft(LAMBDA acc, l : VSetCell(d, acc, n - l - 1, VGetCell(d, v, l)), v, Span(0, n))

(* --- conversions ---------------------------------------------------------- *)
WordBytes(x) == Bytes(x)                      \* little end first, as in memory
FixedToDyn(x) == WordBytes(x)
StaticToDyn(d, x, n) == VDescendant(d, <<>>, 0, [i \in 1..n |-> WGetCell(d, x, i - 1)])
DynToFixed(w, v) ==
    LET pad == ZeroVec((w \div 8) - Len(v))
    IN  Flat(IF "conv" \in Legacy THEN v \o pad ELSE pad \o v)
DynToStatic(d, w, v, n) ==
    FoldLeft(LAMBDA acc, l : WSetCell(d, acc, l, VGetCell(d, v, l)), ZeroWord(w), Span(0, n))

(* --- from_grid_index ------------------------------------------------------- *)
(* g: tuple of 64-bit words, one per axis *)
LowHigh(g, o) == IF o = "XY" THEN <<g[1], g[2]>> ELSE <<g[2], g[1]>>
Interleave2(lo, hi) ==       \* two 64-bit chunks, cast to u8
    OrW(SpreadBefore8(Cast(lo, 8), FALSE), SpreadBehind8(Cast(hi, 8), FALSE))

GridF2(w, g, o) ==
    LET fd == w \div 2
        lh == LowHigh([a \in 1..2 |-> WGet(g[a], 0, fd)], o)
        Step(acc, ci) == WSet(acc, ci * 8, (ci + 1) * 8,
                           Cast(Interleave2(WGet(lh[1], ci * 4, ci * 4 + 4), WGet(lh[2], ci * 4, ci * 4 + 4)), w))
    IN  FoldLeft(Step, ZeroWord(w), Span(0, (fd + 3) \div 4))
GridS2(w, g, n, o) ==
    LET cap == w \div 2
        sh  == cap - n
        Up(x) == IF "shl64" \in Legacy THEN ShlTrap(x, sh)
                 ELSE IF sh >= 64 THEN ZeroWord(64) ELSE Shl(x, sh)
        lh == LowHigh([a \in 1..2 |-> Up(WGet(g[a], 0, n))], o)
        maxc == (cap + 3) \div 4
        numc == (n + 3) \div 4
        Step(acc, ci) == WSet(acc, ci * 8, (ci + 1) * 8,
                           Cast(Interleave2(WGet(lh[1], ci * 4, ci * 4 + 4), WGet(lh[2], ci * 4, ci * 4 + 4)), w))
    IN  IF "shl64" \in Legacy /\ sh >= 64 THEN PoisonWord(w)
        ELSE FoldLeft(Step, ZeroWord(w), RevSeq(Span(maxc - numc, maxc)))
GridD2(g, n, o) ==
    LET lh == LowHigh([a \in 1..2 |-> WGet(g[a], 0, n)], o)
        Chunk(ci) ==
          LET e == n - ci * 4
              s == IF e >= 4 THEN e - 4 ELSE 0
          IN  WSet(ZeroWord(8), 8 - 2 * (e - s), 8, Interleave2(WGet(lh[1], s, e), WGet(lh[2], s, e)))
    IN  RevSeq([i \in 1..((n + 3) \div 4) |-> Chunk(i - 1)])

(* get_bit_shifts_for_xyz, as published: bit of each axis within a cell *)
Shifts(o) == [a \in 1..3 |-> BitOfAxis(o, a)]
Or3(x, y, z) == OrW(OrW(x, y), z)
GridF3(w, g, o) ==
    LET fd == w \div 3
        m  == [a \in 1..3 |-> AndMask(g[a], [i \in 1..fd |-> 1])]
        sh == Shifts(o)
        Part(a, s) == Shl(SpreadTwo32(Cast(WGet(m[a], s, s + 21), 32)), sh[a])
        Step(acc, ci) ==
          LET s == ci * 21
              t == ci * 63 + (w % 3)
          IN  WSet(acc, t, Min2(t + 63, w), Cast(Or3(Part(1, s), Part(2, s), Part(3, s)), w))
    IN  FoldLeft(Step, ZeroWord(w), Span(0, (fd + 20) \div 21))
GridFast(g, o) ==
    LET sh == Shifts(o)
        Part(a) == Shl(SpreadTwo32(Cast(AndMask(g[a], [i \in 1..21 |-> 1]), 32)), sh[a])
    IN  Shl(Or3(Part(1), Part(2), Part(3)), 1)
GridS3(w, g, n, o) ==
    LET cap == w \div 3
        up  == cap - n
        m   == [a \in 1..3 |-> Shl(WGet(g[a], 0, n), up)]
        sh  == Shifts(o)
        maxc  == (cap + 7) \div 8
        start == IF "chunk" \in Legacy THEN maxc - ((n + 7) \div 8) ELSE up \div 8
        Part(a, s) == Shl(SpreadTwo8(Cast(WGet(m[a], s, s + 8), 8)), sh[a])
        Step(acc, ci) ==
          LET s == ci * 8
              t == ci * 24 + (w % 3)
          IN  WSet(acc, t, Min2(t + 24, w), Cast(Or3(Part(1, s), Part(2, s), Part(3, s)), w))
    IN  FoldLeft(Step, ZeroWord(w), RevSeq(Span(start, maxc)))
(* 3D dynamic: cell by cell; bs[b] is bit b-1 of the cell *)
VSetBits(d, v, l, bs) ==
    LET s == 8 * Len(v) - (l + 1) * d
    IN  VSet(v, s, s + d, Bytes(Cast(bs, 64)))
GridD3(g, n, o) ==
    LET sh == Shifts(o)
        CellB(l) == LET up == n - l - 1
                        P(a) == Shl(AndMask(Shr(WGet(g[a], 0, n), up), <<1>>), sh[a])
                    IN  Or3(P(1), P(2), P(3))
    IN  FoldLeft(LAMBDA acc, l : VSetBits(3, acc, l, CellB(l)), VZeroed(3, n), Span(0, n))

(* canonical words for cells given by bit tuples *)
PackWB(d, w, cb) ==
    TLCEval([i \in 1..w |->
        LET l == (w - i) \div d
        IN  IF l < Len(cb) THEN cb[l + 1][(i - 1) - (w - (l + 1) * d) + 1] ELSE 0])

(* --- to_grid_index: one 64-bit word per axis ------------------------------- *)
ToGridWord(d, cb, o, a) ==
    FoldLeft(LAMBDA acc, l :
               OrW(acc, ShlTrap(Cast(<<cb[l + 1][BitOfAxis(o, a) + 1]>>, 64), Len(cb) - l - 1)),
             ZeroWord(64), Span(0, Len(cb)))

(* --- comparison (concrete words) ------------------------------------------- *)
MsbCmp(x, y) ==     \* numeric comparison of two words of one width
    LET D == {i \in 1..Len(x) : x[i] # y[i]}
    IN  IF D = {} THEN "eq"
        ELSE LET i == CHOOSE i \in D : \A j \in D : i >= j IN IF x[i] < y[i] THEN "lt" ELSE "gt"
(* 1-bits concrete packing of concrete cells *)
PackC(d, w, c) ==
    TLCEval([i \in 1..w |->
        LET l == (w - i) \div d
        IN  IF l < Len(c) THEN CellBit(c[l + 1], (i - 1) - (w - (l + 1) * d)) ELSE 0])
StaticCmp(d, w, x, n, y, m) ==
    LET s == w - n * d   t == w - m * d IN
    IF n < m THEN IF MsbCmp(WGet(x, s, w), WGet(y, s, w)) = "gt" THEN "gt" ELSE "lt"
    ELSE IF n = m THEN MsbCmp(WGet(x, s, w), WGet(y, t, w))
    ELSE IF MsbCmp(WGet(x, t, w), WGet(y, t, w)) = "lt" THEN "lt" ELSE "gt"
DynCmp(a, b) ==     \* level by level, a missing cell before every cell
    LET m == Max2(Len(a), Len(b))
        At(c, i) == IF i > Len(c) THEN -1 ELSE c[i]
        D == {i \in 1..m : At(a, i) # At(b, i)}
    IN  IF D = {} THEN "eq"
        ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF At(a, i) < At(b, i) THEN "lt" ELSE "gt"
=============================================================================
