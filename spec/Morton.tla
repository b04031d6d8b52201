------------------------------- MODULE Morton -------------------------------
(***************************************************************************)
(* The system as a state machine: a heap of registers, each holding an     *)
(* index of one family (dimension D, word width W), and one action per     *)
(* public operation.  TLC explores it exhaustively for small words; the    *)
(* invariants and action properties below are the design-level statements  *)
(* of the properties C01-C11 and C16 (see DESIGN.md).  Trace.tla re-uses   *)
(* the same operators (MortonDesign) to validate real executions.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, MortonDesign

CONSTANTS D,          \* dimension, 2 or 3
          W,          \* word width in bits (small)
          Regs,       \* registers
          MaxDyn      \* bound on the depth of dynamic indices

VARIABLES reg,        \* [Regs -> index value or NoIdx]
          last        \* the call just made: [op, dst, res]; hidden by VIEW

vars == <<reg, last>>
NoIdx == [k |-> "-", c |-> <<>>]

Cap == W \div D
Lim(k) == IF k = "D" THEN MaxDyn ELSE Cap
SeqsUpTo(n) == UNION {[1..m -> CellSet(D)] : m \in 0..n}
Ords == ToSet(Orderings(D))
Live == {r \in Regs : reg[r] # NoIdx}

Init == reg = [r \in Regs |-> NoIdx] /\ last = [op |-> "init", dst |-> 0, src |-> 0, res |-> None]

Store(op, s, d, res) ==
    /\ last' = [op |-> op, dst |-> d, src |-> s, res |-> res]
    /\ reg' = IF res.out = "ok" THEN [reg EXCEPT ![d] = res.v] ELSE reg
\* bounds the exploration of unlimited indices only; the limit of the others is
\* the design's own doing (CapacityInv)
Within(res) == (res.out = "ok" /\ res.v.k = "D") => Len(res.v.c) <= Lim("D")

(* --- construction --- *)
New == \E d \in Regs, k \in Flavours, c \in SeqsUpTo(Cap + 1) :
          LET r == FromCells(k, D, W, c) IN Within(r) /\ Store("new", 0, d, r)
Default == \E d \in Regs, k \in Flavours : Store("def", 0, d, Ok(DefaultIdx(k, D, W)))
Zeroed == \E d \in Regs, k \in Variable, n \in 0..(Cap + 1) :
          LET r == ZeroedIdx(k, D, W, n) IN Within(r) /\ Store("zeroed", 0, d, r)
(* --- update --- *)
Set == \E d \in Live : \E l \in 0..Len(reg[d].c), x \in CellSet(D) :
          Store("set", d, d, SetLevel(reg[d], l, x))
Copy == \E s \in Live, d \in Regs : Store("copy", s, d, Ok(reg[s]))
(* --- navigation --- *)
GoUp == \E s \in Live, d \in Regs : reg[s].k \in Variable /\
          \E g \in 1..(Len(reg[s].c) + 1) : Store("anc", s, d, Ancestor(reg[s], g))
GoDown == \E s \in Live, d \in Regs : reg[s].k \in Variable /\
          \E p \in SeqsUpTo(2) :
             LET r == Descendant(reg[s], D, W, p) IN Within(r) /\ Store("desc", s, d, r)
AtDepth == \E s \in Live, d \in Regs : reg[s].k \in Variable /\
          \E n \in 0..(Len(reg[s].c) + 1) : Store("wd", s, d, WithDepth(reg[s], n))
Invert == \E s \in Live, d \in Regs : Store("inv", s, d, Ok(Inverted(reg[s])))
(* --- conversion: the API offers F->S, F->D, S->F, S->D, D->F, D->S --- *)
Conv == \E s \in Live, d \in Regs, k \in Flavours : k # reg[s].k /\
          LET r == Convert(reg[s], k, D, W) IN Within(r) /\ Store("conv", s, d, r)
(* --- through the grid --- *)
ViaGrid == \E s \in Live, d \in Regs, k \in Flavours, o1 \in Ords, o2 \in Ords :
          LET g == ToGrid(reg[s], D, o1)
              r == FromGrid(k, D, W, g, Len(reg[s].c), o2)
          IN Within(r) /\ Store("grid", s, d, r)

Next == New \/ Default \/ Zeroed \/ Set \/ Copy \/ GoUp \/ GoDown \/ AtDepth
          \/ Invert \/ Conv \/ ViaGrid
Spec == Init /\ [][Next]_vars
HeapView == reg

-----------------------------------------------------------------------------
(* Invariants: one or more per property *)
TypeOK == \A r \in Live : reg[r].k \in Flavours /\ \A i \in 1..Len(reg[r].c) : reg[r].c[i] \in CellSet(D)

(* C01 *)
RebuildInv == \A r \in Live :
    /\ FromCells(reg[r].k, D, W, reg[r].c) = Ok(reg[r])
    /\ \A l \in 0..(Len(reg[r].c) - 1) : GetLevel(reg[r], l) = Ok(reg[r].c[l + 1])
(* the iterator: n steps give the cells, then nothing for ever; nth is steps *)
RECURSIVE Steps(_, _)
Steps(u, j) == IF j = 0 THEN u ELSE Steps(CurNext(u).u, j - 1)
IterInv == \A r \in Live : LET u == Cursor(reg[r].c)  n == Len(reg[r].c) IN
    /\ Rest(u) = reg[r].c
    /\ \A p \in 0..(n + 1) : LET v == Steps(u, p) IN
         /\ CurNext(v).y \o Rest(CurNext(v).u) = Rest(v)
         /\ CurEvery(v, 0) = Rest(v)
         /\ \A j \in 0..(n + 1) : CurNth(v, j) = CurNext(Steps(v, j))
(* C02 *)
CapacityInv == \A r \in Live :
    /\ Len(reg[r].c) <= Capacity(reg[r].k, D, W)
    /\ reg[r].k = "F" => Len(reg[r].c) = Cap
    /\ GetLevel(reg[r], Len(reg[r].c)) = Panic
    /\ reg[r].k = "S" => (Descendant(reg[r], D, W, Zeros(Cap + 1 - Len(reg[r].c))) = None)
(* C03 *)
SetInv == \A r \in Live : \A l \in 0..(Len(reg[r].c) - 1), x \in CellSet(D) :
    LET v == SetLevel(reg[r], l, x).v
    IN  /\ Len(v.c) = Len(reg[r].c) /\ v.c[l + 1] = x
        /\ \A m \in 1..Len(v.c) : m # l + 1 => v.c[m] = reg[r].c[m]
OnlyTarget == [][\A r \in Regs : r # last'.dst => reg'[r] = reg[r]]_vars
RefusalKeeps == [][last'.res.out # "ok" => reg' = reg]_vars
(* C04, C05 *)
GridInv == \A r \in Live : \A o \in Ords :
    LET g == ToGrid(reg[r], D, o)
    IN  /\ \A a \in 1..D : Len(g[a]) = Len(reg[r].c)
        /\ CellsOfGrid(g, o, Len(reg[r].c)) = reg[r].c
        /\ FromGrid(reg[r].k, D, W, g, Len(reg[r].c), o) = Ok(reg[r])
        \* excess high bits of the coordinates do not matter
        /\ CellsOfGrid([a \in 1..D |-> <<1, 0, 1>> \o g[a]], o, Len(reg[r].c)) = reg[r].c
(* C06 *)
NavInv == \A r \in Live : reg[r].k \in Variable =>
    LET v == reg[r]  n == Len(reg[r].c) IN
    /\ Ancestor(v, n + 1) = None
    /\ WithDepth(v, n) = Ok(v)
    /\ \A g \in 1..n : Ancestor(v, g) = WithDepth(v, n - g)
    /\ \A g \in 1..n : Descendant(Ancestor(v, g).v, D, W, SubSeq(v.c, n - g + 1, n)) = Ok(v)
    /\ \A x \in CellSet(D) : LET ch == Child(v, D, W, x)
                             IN ch.out = "ok" => Parent(ch.v) = Ok(v)
    /\ \A g \in 1..n, h \in 1..n : g + h <= n => Ancestor(Ancestor(v, g).v, h) = Ancestor(v, g + h)
(* C07 *)
OrderInv == \A r, s \in Live : reg[r].k = reg[s].k =>
    LET a == reg[r].c  b == reg[s].c IN
    /\ (CmpCells(a, b) = "eq") = (reg[r] = reg[s])
    /\ (CmpCells(a, b) = "lt") = (CmpCells(b, a) = "gt")
    /\ (IsStrictPrefix(a, b) => CmpCells(a, b) = "lt")
(* C09 *)
ConvInv == \A r \in Live : \A k \in Flavours :
    LET c1 == Convert(reg[r], k, D, W) IN
    /\ (c1.out = "err") = (Len(reg[r].c) > Capacity(k, D, W))
    /\ c1.out = "ok" =>
         /\ Prefix(c1.v.c, Len(reg[r].c)) = reg[r].c
         /\ LET back == Convert(c1.v, reg[r].k, D, W)
            IN  k # "F" => back = Ok(reg[r])
(* C10: same-depth names are distinct; grid name determines the position *)
NameInv == \A r, s \in Live :
    (Len(reg[r].c) = Len(reg[s].c) /\ reg[r].c # reg[s].c) =>
        \A nm \in {"cells", "root", "grid"} : Name(reg[r], D, nm) # Name(reg[s], D, nm)
TextInv == \A r \in Live : \A nm \in {"cells", "root", "grid"} :
    LET T(v) == NameText(v.c, CellBitsOf(v.c, D), D, nm)
    IN  /\ Spell(T(reg[r])) = Name(reg[r], D, nm)
        /\ \A s \in Live : Spell(DisplayText(<<T(reg[r]), T(reg[s])>>)) = DisplayNames(<<reg[r], reg[s]>>, D, nm)
        /\ Spell(DisplayText(<<>>)) = DisplayNames(<<>>, D, nm)
(* C11 *)
InvolutionInv == \A r \in Live : LET v == reg[r]  u == Inverted(reg[r]) IN
    /\ Inverted(u) = v /\ u.k = v.k /\ Len(u.c) = Len(v.c)
    /\ \A l \in 1..Len(v.c) : u.c[l] = v.c[Len(v.c) + 1 - l]
(* C16: numeric order of packed words of equal depth is tree order *)
BitsLess(a, b) == LET i == FirstDiff(a, b) IN i # 0 /\ a[i] < b[i]
RawInv == \A r \in Live : reg[r].k # "D" =>
    LET raw == RawBits(reg[r].c, D, W) IN
    /\ Len(raw) = W
    /\ CellsOfRaw(raw, D, Len(reg[r].c)) = reg[r].c
    /\ \A s \in Live : (reg[s].k = reg[r].k /\ Len(reg[s].c) = Len(reg[r].c)) =>
         (BitsLess(raw, RawBits(reg[s].c, D, W)) = (CmpCells(reg[r].c, reg[s].c) = "lt"))

(* C17: tree, grid and order are three views of one nested space *)
Weave(g, o, n) == FlattenSeq([l \in 1..n |-> [i \in 1..D |-> g[AxisOfBit(o, D - i)][l]]])
NestInv == \A r \in Live : \A o \in Ords :
    LET v == reg[r]  n == Len(v.c)  g == TLCEval(ToGrid(v, D, o)) IN
    /\ v.k \in Variable =>
         \* going up drops the lowest bits of every coordinate, going down appends
         /\ \A k \in 1..n : ToGrid(Ancestor(v, k).v, D, o) = [a \in 1..D |-> Prefix(g[a], n - k)]
         /\ \A x \in CellSet(D) : LET ch == Child(v, D, W, x) IN ch.out = "ok" =>
                ToGrid(ch.v, D, o) = [a \in 1..D |-> Append(g[a], CellBit(x, BitOfAxis(o, a)))]
    /\ \A s \in Live : LET u == reg[s]  h == TLCEval(ToGrid(u, D, o)) IN
         \* a node contains another one iff its cube contains the other's
         /\ Len(u.c) >= n => (IsPrefix(v.c, u.c) = (\A a \in 1..D : Prefix(h[a], n) = g[a]))
         \* the order of nodes of one depth is that of the interleaved coordinates
         /\ (u.k = v.k /\ Len(u.c) = n) =>
              (CmpCells(v.c, u.c) = "lt") = BitsLess(Weave(g, o, n), Weave(h, o, n))

(* Facts about the order that need more than two indices (constant level) *)
OrderFacts ==
    LET N == SeqsUpTo(Cap + 1)  P == PreOrder(<<>>, D, Cap) IN
    /\ \A a, b, c \in {x \in N : Len(x) <= 2} : (LessEq(a, b) /\ LessEq(b, c)) => LessEq(a, c)
    /\ SortedCells(P) /\ Len(P) = Cardinality(SeqsUpTo(Cap)) /\ ToSet(P) = SeqsUpTo(Cap)
    /\ SortCells(RevSeq(P)) = P
ASSUME OrderFacts
=============================================================================
