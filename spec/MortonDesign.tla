---------------------------- MODULE MortonDesign ----------------------------
(***************************************************************************)
(* The design of morton-rs as pure operators: what every public operation  *)
(* means, on the abstract value of an index - its storage flavour and the  *)
(* sequence of its cells from the root down.  No bit packing appears here. *)
(*                                                                         *)
(* An index value is a record [k |-> flavour, c |-> cells]; flavour "F" is *)
(* fixed depth, "S" static, "D" dynamic storage.  The family (dimension d, *)
(* word width w) is passed around separately, because all indices that can *)
(* be converted into each other share it.                                  *)
(*                                                                         *)
(* Cells are integers and cell zero is 0.  All operators except those on   *)
(* single bits (CellBit, grid, names, order) only move cells around, so    *)
(* they are equally meaningful on concrete cells 0..2^d-1 and on symbolic  *)
(* cell tokens; the conformance checks use both.                           *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Flavours == {"F", "S", "D"}
Variable == {"S", "D"}            \* flavours of variable depth
NoLimit  == 1000000               \* capacity of dynamic storage

Capacity(k, d, w) == IF k = "D" THEN NoLimit ELSE w \div d
CellSet(d) == 0 .. (2^d - 1)

Idx(k, c) == [k |-> k, c |-> c]

(* Outcomes of operations *)
Ok(v)    == [out |-> "ok", v |-> v]
None     == [out |-> "none"]
Err(max) == [out |-> "err", max |-> max]
Panic    == [out |-> "panic"]

Zeros(n)   == [i \in 1..n |-> 0]
Pad(c, n)  == IF Len(c) >= n THEN c ELSE c \o Zeros(n - Len(c))
RevSeq(c)  == [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
Prefix(c, n) == SubSeq(c, 1, n)

(* Normal form of a cell sequence in flavour k: fixed depth pads with zero *)
Fit(k, d, w, c) == IF k = "F" THEN Pad(c, Capacity("F", d, w)) ELSE c

-----------------------------------------------------------------------------
(* Construction *)
FromCells(k, d, w, c) ==
    IF Len(c) > Capacity(k, d, w)
    THEN Err(Capacity(k, d, w))
    ELSE Ok(Idx(k, Fit(k, d, w, c)))

DefaultIdx(k, d, w) == Idx(k, Fit(k, d, w, <<>>))

(* zeroed(depth): static gives nothing beyond its capacity; not offered by F *)
ZeroedIdx(k, d, w, n) ==
    IF n > Capacity(k, d, w) THEN None ELSE Ok(Idx(k, Zeros(n)))

-----------------------------------------------------------------------------
(* Level access; levels are 0-based as in the API *)
GetLevel(v, l) == IF l >= Len(v.c) THEN Panic ELSE Ok(v.c[l + 1])
SetLevel(v, l, x) ==
    IF l >= Len(v.c) THEN Panic ELSE Ok([v EXCEPT !.c = [@ EXCEPT ![l + 1] = x]])

-----------------------------------------------------------------------------
(* Navigation, for variable-depth flavours *)
Ancestor(v, g) ==
    IF g > Len(v.c) THEN None ELSE Ok(Idx(v.k, Prefix(v.c, Len(v.c) - g)))
Parent(v) == Ancestor(v, 1)
WithDepth(v, n) ==
    IF n > Len(v.c) THEN None ELSE Ok(Idx(v.k, Prefix(v.c, n)))
Descendant(v, d, w, path) ==
    IF Len(v.c) + Len(path) > Capacity(v.k, d, w)
    THEN None
    ELSE Ok(Idx(v.k, v.c \o path))
Child(v, d, w, x) == Descendant(v, d, w, <<x>>)

Inverted(v) == Idx(v.k, RevSeq(v.c))

-----------------------------------------------------------------------------
(* Conversion between flavours of one family *)
Convert(v, k2, d, w) == FromCells(k2, d, w, v.c)

-----------------------------------------------------------------------------
(* Axis orderings.  ord[b+1] is the axis (1 = X, 2 = Y, 3 = Z) that owns   *)
(* bit b of a cell number: XZY = <<1,3,2>> gives bit 0 to X, bit 1 to Z.   *)
Orderings(d) == IF d = 2 THEN <<"XY", "YX">>
                         ELSE <<"XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX">>
OrdSeq == [XY  |-> <<1,2>>,   YX  |-> <<2,1>>,
           XYZ |-> <<1,2,3>>, XZY |-> <<1,3,2>>, YXZ |-> <<2,1,3>>,
           YZX |-> <<2,3,1>>, ZXY |-> <<3,1,2>>, ZYX |-> <<3,2,1>>]
AxisOfBit(o, b) == OrdSeq[o][b + 1]
BitOfAxis(o, a) == (CHOOSE b \in 1..Len(OrdSeq[o]) : OrdSeq[o][b] = a) - 1
DefaultOrdering(d) == IF d = 2 THEN "XY" ELSE "XYZ"

CellBit(x, b) == (x \div (2^b)) % 2
CellBitsOf(c, d) == [l \in 1..Len(c) |-> [b \in 1..d |-> CellBit(c[l], b - 1)]]
CellOfBits(t) == IF Len(t) = 2 THEN t[1] + 2*t[2] ELSE t[1] + 2*t[2] + 4*t[3]

(* Grid law, on bits.  A coordinate is its bit sequence, most significant  *)
(* first.  cb is the sequence of the cells' bit tuples (bit 0 first).      *)
GridAxis(cb, o, a) == [l \in 1..Len(cb) |-> cb[l][BitOfAxis(o, a) + 1]]
LowBits(s, n) == IF Len(s) >= n THEN SubSeq(s, Len(s) - n + 1, Len(s))
                                ELSE Zeros(n - Len(s)) \o s
CellBitsOfGrid(g, o, n) ==
    [l \in 1..n |-> [b \in 1..Len(OrdSeq[o]) |-> LowBits(g[AxisOfBit(o, b - 1)], n)[l]]]
TrimBits(s) == LET nz == {i \in 1..Len(s) : s[i] # 0}
               IN  IF nz = {} THEN <<>>
                   ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))

ToGrid(v, d, o) == LET cb == TLCEval(CellBitsOf(v.c, d))
                   IN [a \in 1..d |-> GridAxis(cb, o, a)]
CellsOfGrid(g, o, n) ==
    LET low == TLCEval([a \in 1..Len(g) |-> LowBits(g[a], n)])
        d   == Len(g)
    IN  [l \in 1..n |-> CellOfBits([b \in 1..d |-> low[AxisOfBit(o, b - 1)][l]])]

(* from_grid_index.  Fixed depth always uses its full depth; static refuses *)
(* depths beyond its capacity.                                              *)
FromGrid(k, d, w, g, n, o) ==
    LET depth == IF k = "F" THEN Capacity("F", d, w) ELSE n
    IN  IF depth > Capacity(k, d, w)
        THEN Err(Capacity(k, d, w))
        ELSE Ok(Idx(k, CellsOfGrid(g, o, depth)))
(* Grid depth dynamic storage must accept; beyond it may refuse by panicking *)
DynamicGridMax == 32

-----------------------------------------------------------------------------
(* Tree order: lexicographic on cells, proper prefixes first *)
FirstDiff(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..m : a[i] # b[i]}
    IN  IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
CmpCells(a, b) ==
    LET i == FirstDiff(a, b)
    IN  IF i # 0 THEN IF a[i] < b[i] THEN "lt" ELSE "gt"
        ELSE IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq"
LessEq(a, b) == CmpCells(a, b) # "gt"
SortedCells(s) == \A i \in 1..(Len(s) - 1) : LessEq(s[i], s[i + 1])
SortCells(s) == SortSeq(s, LAMBDA a, b : CmpCells(a, b) = "lt")

RECURSIVE PreOrder(_, _, _)
(* depth-first pre-order of the tree below node c, down to depth m *)
PreOrder(c, d, m) ==
    IF Len(c) = m THEN <<c>>
    ELSE LET Sub == [x \in 1..(2^d) |-> PreOrder(Append(c, x - 1), d, m)]
         IN  <<c>> \o FlattenSeq(Sub)

-----------------------------------------------------------------------------
(* Names *)
DigitChar == <<"0","1","2","3","4","5","6","7","8","9">>
Digits(s) == FoldLeft(LAMBDA acc, x : acc \o DigitChar[x + 1], "", s)
(* decimal digits of a bit sequence (most significant first), by doubling *)
DoublePlus(ds, b) ==
    LET n == Len(ds)
        carry == [i \in 1..n |-> IF ds[i] >= 5 THEN 1 ELSE 0]
        low   == [i \in 1..n |-> ((2 * ds[i]) % 10) + (IF i = n THEN b ELSE carry[i + 1])]
    IN  TLCEval(IF carry[1] = 1 THEN <<1>> \o low ELSE low)
DecimalDigits(bits) == FoldLeft(DoublePlus, <<0>>, TrimBits(bits))
Decimal(bits) == Digits(DecimalDigits(bits))

CellName(v) == Digits(v.c)
RootName(v) == "r" \o Digits(v.c)
GridName(v, d) ==
    LET g == TLCEval(ToGrid(v, d, DefaultOrdering(d)))
    IN  FoldLeft(LAMBDA acc, a : acc \o "-" \o Decimal(g[a]),
                 ToString(Len(v.c)), [i \in 1..d |-> i])
Name(v, d, naming) == CASE naming = "cells" -> CellName(v)
                        [] naming = "root"  -> RootName(v)
                        [] naming = "grid"  -> GridName(v, d)
DisplayNames(vs, d, naming) ==
    "[" \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ", ") \o Name(vs[i], d, naming),
                    "", [i \in 1..Len(vs) |-> i]) \o "]"

(* The same names as text tokens, meaningful on symbolic cells: a token >= 0 *)
(* is a cell, spelled as one digit; the others are as below.                 *)
TOpen == -1  TSep == -2  TClose == -3  TRoot == -4  TDash == -5
TNum(n)   == <<-6, n>>                      \* the number n in decimal
TBits(bs) == <<-7, Len(bs)>> \o bs          \* the number with these bits in decimal
NameText(c, cb, d, naming) ==
    CASE naming = "cells" -> c
      [] naming = "root"  -> <<TRoot>> \o c
      [] naming = "grid"  ->
           TNum(Len(c)) \o FlattenSeq([a \in 1..d |-> <<TDash>> \o TBits(GridAxis(cb, DefaultOrdering(d), a))])
DisplayText(names) ==
    <<TOpen>> \o FlattenSeq([i \in 1..Len(names) |-> (IF i = 1 THEN <<>> ELSE <<TSep>>) \o names[i]]) \o <<TClose>>
RECURSIVE Spell(_)
Spell(t) ==
    IF t = <<>> THEN ""
    ELSE LET From(i) == SubSeq(t, i, Len(t))
         IN CASE t[1] >= 0 -> DigitChar[t[1] + 1] \o Spell(From(2))
              [] t[1] = TOpen  -> "[" \o Spell(From(2))
              [] t[1] = TSep   -> ", " \o Spell(From(2))
              [] t[1] = TClose -> "]" \o Spell(From(2))
              [] t[1] = TRoot  -> "r" \o Spell(From(2))
              [] t[1] = TDash  -> "-" \o Spell(From(2))
              [] t[1] = -6     -> ToString(t[2]) \o Spell(From(3))
              [] t[1] = -7     -> Decimal(SubSeq(t, 3, 2 + t[2])) \o Spell(From(3 + t[2]))

-----------------------------------------------------------------------------
(* The cell iterator: the cells of an index and how many were taken.  Every *)
(* step gives what was yielded (nothing once exhausted) and the new cursor; *)
(* an exhausted cursor stays exhausted.                                     *)
Cursor(c) == [c |-> c, p |-> 0]
Left(u)   == Len(u.c) - u.p
Rest(u)   == SubSeq(u.c, u.p + 1, Len(u.c))
(* skip j cells and take one *)
CurNth(u, j) == IF j < Left(u) THEN [y |-> <<u.c[u.p + j + 1]>>, u |-> [u EXCEPT !.p = @ + j + 1]]
                               ELSE [y |-> <<>>, u |-> [u EXCEPT !.p = Len(u.c)]]
CurNext(u)  == CurNth(u, 0)
CurLast(u)  == IF Left(u) = 0 THEN <<>> ELSE <<u.c[Len(u.c)]>>
(* every (j+1)-th of the remaining cells, from the next one *)
CurEvery(u, j) == [i \in 1..((Left(u) + j) \div (j + 1)) |-> u.c[u.p + (i - 1) * (j + 1) + 1]]

-----------------------------------------------------------------------------
(* Collections of indices compare like sequences of them *)
CmpLists(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..m : CmpCells(a[i], b[i]) # "eq"}
    IN  IF D # {} THEN LET i == CHOOSE i \in D : \A j \in D : i <= j IN CmpCells(a[i], b[i])
        ELSE IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq"

-----------------------------------------------------------------------------
(* Raw words: bits of the packed word, most significant first, unused low  *)
(* bits zero.                                                              *)
RawBits(c, d, w) ==
    FlattenSeq([l \in 1..Len(c) |-> [b \in 1..d |-> CellBit(c[l], d - b)]])
      \o Zeros(w - d * Len(c))
CellsOfRaw(raw, d, n) ==
    [l \in 1..n |-> CellOfBits([b \in 1..d |-> raw[(l - 1) * d + (d - b) + 1]])]
=============================================================================
