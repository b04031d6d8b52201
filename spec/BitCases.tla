------------------------------- MODULE BitCases -------------------------------
(***************************************************************************)
(* The leaves of the library as transition cases: bit-range access and     *)
(* primitive conversions (C12), bit spreading (C13), alignment of u8 (C14)  *)
(* and the cell / ordering tables (C15).  For each case the law (what the  *)
(* property says) is compared with the transcribed algorithm of BitWords   *)
(* on symbolic bits, and printed as a template for the harness.            *)
(*                                                                         *)
(* Result segments are flat triples <<source, start, length>>, least       *)
(* significant bit first: source 0 zeros, 1 the receiver, 2 the argument.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, MortonDesign, BitWords

CONSTANTS Legacy, Ops, Deep, Emit
VARIABLE st

Widths == {8, 16, 32, 64, 128}
Bt(i)  == 1 + i            \* symbolic bit i of the receiver
Vt(i)  == 100001 + i         \* symbolic bit i of the argument
SymW(w) == TLCEval([i \in 1..w |-> Bt(i - 1)])
SymV(w) == TLCEval([i \in 1..w |-> Vt(i - 1)])
(* an argument of m significant bits in a word of w *)
ValW(m, w) == TLCEval([i \in 1..w |-> IF i <= m THEN Vt(i - 1) ELSE 0])

Expand(segs) == FlattenSeq([j \in 1..Len(segs) |->
    [i \in 1..segs[j][3] |-> CASE segs[j][1] = 0 -> 0
                               [] segs[j][1] = 1 -> Bt(segs[j][2] + i - 1)
                               [] segs[j][1] = 2 -> Vt(segs[j][2] + i - 1)]])
Drop0(segs) == SelectSeq(segs, LAMBDA x : x[3] > 0)

(* positions of interest in 0..m *)
Pos(m) == IF m <= 64 \/ Deep THEN 0..m
          ELSE {x \in 0..9 \cup {15,16,17,23,24,25,31,32,33,39,40,41,47,48,49,55,56,57,62,63,64,65,66,71,72,73,79,80,95,96,97}
                       \cup (m-9)..m : x <= m}
PosV(m) == IF m <= 32 \/ Deep THEN 0..m
           ELSE {x \in 0..m : x <= 9 \/ x >= m - 9 \/ x % 8 \in {0, 1, 7}}
VecLens == IF Deep THEN {1,2,3,4,5,8,9,16,17} ELSE {1,2,3,4,9,11}

(* long vectors: more than 256 bits, more than 256 bytes *)
LongLens == {33, 260}
PosL(m) == {x \in {0, 1, 7, 8, 9, 100, 255, 256, 257, 263, 1023, 2040, 2047, 2048, 2049, 2055} \cup (m-9)..m : x <= m}

Rec(op, w, a, r, good) ==
    [ph |-> "case", op |-> op, w |-> w, a |-> a, r |-> r, ok |-> good]
Seg(op, w, a, segs, impl) ==
    LET s == Drop0(segs) IN Rec(op, w, a, FlattenSeq(s), impl = Expand(s))

-----------------------------------------------------------------------------
(* C12: integers *)
BGet(w, s, e) == Seg("bget", w, <<s, e>>, <<<<1, s, e - s>>, <<0, 0, w - (e - s)>>>>, WGet(SymW(w), s, e))
BGetU(w, s, e) == Seg("bgetu", w, <<s, e>>, <<<<1, s, e - s>>, <<0, 0, 64 - (e - s)>>>>,
                      Cast(WGet(SymW(w), s, e), 64))
BSet(w, s, e) == Seg("bset", w, <<s, e>>, <<<<1, 0, s>>, <<2, 0, e - s>>, <<1, e, w - e>>>>,
                     WSet(SymW(w), s, e, ValW(e - s, w)))
BSetU(w, s, e) == Seg("bsetu", w, <<s, e>>, <<<<1, 0, s>>, <<2, 0, e - s>>, <<1, e, w - e>>>>,
                      WSet(SymW(w), s, e, Cast(ValW(e - s, 64), w)))
(* C12: byte vectors of L bytes; the argument is a vector of m bytes *)
VecOf(L) == Bytes(SymW(8 * L))
ValVec(n, m) == Bytes(ValW(n, 8 * m))
CeilB(n) == (n + 7) \div 8
VGetC(L, s, e) == Seg("vget", L, <<s, e>>, <<<<1, s, e - s>>, <<0, 0, 8 * CeilB(e - s) - (e - s)>>>>,
                      Flat(VGet(VecOf(L), s, e, "vget" \in Legacy)))
VGetUC(L, s, e) == Seg("vgetu", L, <<s, e>>, <<<<1, s, e - s>>, <<0, 0, 64 - (e - s)>>>>,
                       VGetUsize(VecOf(L), s, e))
VSetC(L, s, e, extra) ==
    Seg("vset", L, <<s, e, CeilB(e - s) + extra>>, <<<<1, 0, s>>, <<2, 0, e - s>>, <<1, e, 8 * L - e>>>>,
        Flat(VSet(VecOf(L), s, e, ValVec(e - s, CeilB(e - s) + extra))))
VSetUC(L, s, e) ==
    Seg("vsetu", L, <<s, e>>, <<<<1, 0, s>>, <<2, 0, e - s>>, <<1, e, 8 * L - e>>>>,
        Flat(VSet(VecOf(L), s, e, ValVec(e - s, 8))))
(* C12: conversions; u is the other width.  Vectors have w = 0. *)
AsInt(w, u)  == Seg("as", w, <<u>>, <<<<1, 0, Min2(w, u)>>, <<0, 0, Max2(0, u - w)>>>>, Cast(SymW(w), u))
FromInt(w, u) == Seg("from", w, <<u>>, <<<<2, 0, Min2(w, u)>>, <<0, 0, Max2(0, w - u)>>>>, Cast(SymV(u), w))
AsVec(u, L)  == Seg("vas", L, <<u>>, <<<<1, 0, u>>>>, SubSeq(SymW(8 * L), 1, u))
FromVec(u)   == Seg("vfrom", 0, <<u>>, <<<<2, 0, u>>>>, SymV(u))
(* from_u8_slice: bytes beyond the width are ignored, missing ones are zero *)
SliceByte(w, L, be, j) ==       \* segment of result byte j (0 = least significant)
    LET nb == w \div 8
        src == IF be THEN nb - 1 - j ELSE j
    IN  IF src < Min2(L, nb) THEN <<2, 8 * src, 8>> ELSE <<0, 0, 8>>
FromSlice(w, L, be) ==
    LET nb == w \div 8
        padded == [i \in 1..nb |-> IF i <= L THEN i ELSE 0]
        order  == IF be THEN RevSeq(padded) ELSE padded
    IN  Seg("slice", w, <<L, IF be THEN 1 ELSE 0>>, [j \in 1..nb |-> SliceByte(w, L, be, j - 1)],
            FlattenSeq([j \in 1..nb |-> [i \in 1..8 |-> IF order[j] = 0 THEN 0 ELSE Vt(8 * (order[j] - 1) + i - 1)]]))
FromSliceVec(L, be) ==
    Seg("vslice", L, <<L, IF be THEN 1 ELSE 0>>,
        [j \in 1..L |-> <<2, 8 * (IF be THEN L - j ELSE j - 1), 8>>],
        Flat(IF be THEN RevSeq(Bytes(SymV(8 * L))) ELSE Bytes(SymV(8 * L))))

VPos(L) == IF L \in LongLens THEN PosL(8 * L) ELSE PosV(8 * L)
BitStep ==
    \/ \E w \in Widths : \E s \in Pos(w), e \in Pos(w) : s < e /\
         \/ "bget" \in Ops /\ st' = BGet(w, s, e)
         \/ "bset" \in Ops /\ st' = BSet(w, s, e)
         \/ "bgetu" \in Ops /\ e - s <= 64 /\ st' = BGetU(w, s, e)
         \/ "bsetu" \in Ops /\ e - s <= 64 /\ st' = BSetU(w, s, e)
    \/ \E L \in VecLens \cup LongLens : \E s \in VPos(L), e \in VPos(L) : s < e /\
         \/ "vget" \in Ops /\ st' = VGetC(L, s, e)
         \/ "vset" \in Ops /\ \E x \in 0..1 : st' = VSetC(L, s, e, x)
         \/ "vgetu" \in Ops /\ e - s <= 64 /\ st' = VGetUC(L, s, e)
         \/ "vsetu" \in Ops /\ e - s <= 64 /\ st' = VSetUC(L, s, e)
    \/ "conv" \in Ops /\ \E w \in Widths, u \in Widths : st' \in {AsInt(w, u), FromInt(w, u)}
    \/ "conv" \in Ops /\ \E u \in Widths : st' \in {AsVec(u, u \div 8), FromVec(u)}
    \/ "conv" \in Ops /\ \E L \in 2..5 : st' = AsVec(8, L)
    \/ "conv" \in Ops /\ \E w \in Widths, be \in BOOLEAN : \E L \in 0..(w \div 8 + 3) \cup {255, 256, 257, 512, 65536} : st' = FromSlice(w, L, be)
    \/ "conv" \in Ops /\ \E L \in (0..10) \cup {255, 256, 257}, be \in BOOLEAN : st' = FromSliceVec(L, be)

-----------------------------------------------------------------------------
(* C13: result bit j takes input bit r[j], or nothing (-1) *)
SrcOf(law) == [j \in 1..Len(law) |-> IF law[j] = 0 THEN -1 ELSE law[j] - 1]
Spread(op, win, n, f, o, wout, impl) ==
    LET law == SpreadLaw(SymW(win), n, f, o, wout)
    IN  Rec(op, win, <<n, f, o, wout>>, SrcOf(law), impl = law)
SpreadStepC ==
    "spread" \in Ops /\
    LET lg == "spread" \in Legacy IN
    st' \in {Spread("before8", 8, 4, 2, 0, 8, SpreadBefore8(SymW(8), lg)),
             Spread("behind8", 8, 4, 2, 1, 8, SpreadBehind8(SymW(8), lg)),
             Spread("before16", 16, 8, 2, 0, 16, SpreadBefore16(SymW(16), lg)),
             Spread("two8", 8, 8, 3, 0, 32, SpreadTwo8(SymW(8))),
             Spread("two32", 32, 21, 3, 0, 64, SpreadTwo32(SymW(32)))}

-----------------------------------------------------------------------------
(* C14 on u8, exhaustively; -1: the next multiple is not representable *)
AlignLaw(v, a, max) ==
    IF a = 0 THEN v
    ELSE LET M == {x \in v..Min2(v + a - 1, max) : x % a = 0}
         IN  IF M = {} THEN -1 ELSE CHOOSE x \in M : \A y \in M : x <= y
(* the code: remainder, then add *)
AlignImpl(v, a, max) ==
    IF a = 0 \/ v % a = 0 THEN v
    ELSE LET inner == IF "align" \in Legacy THEN v + a ELSE 0    \* trapped before
             r == v + (a - (v % a))
         IN  IF r > max \/ inner > max THEN -1 ELSE r
AlignTable(a) ==
    LET law == TLCEval([i \in 1..256 |-> AlignLaw(i - 1, a, 255)])
    IN  Rec("align8", 8, <<a>>, law, \A v \in 0..255 : AlignImpl(v, a, 255) = law[v + 1])
(* The law by cases, for words too wide to enumerate: v = q*a + r, r < a.   *)
(* "zero": a = 0, the result is v; "exact": r = 0, the result is q*a;       *)
(* "rest": r > 0, the result is (q+1)*a if that is representable.  Checked  *)
(* here against the definition (smallest multiple not below v) on all of u8,*)
(* and for all naturals by TLAPS in AlignProof.tla.                         *)
AlignClass(s) ==
    LET add == IF s = "rest" THEN 1 ELSE 0
        good == CASE s = "zero" -> \A v \in 0..255 : AlignLaw(v, 0, 255) = v
                  [] s = "exact" -> \A a \in 1..255 : \A q \in 0..(255 \div a) : AlignLaw(q * a, a, 255) = q * a
                  [] s = "rest" -> \A a \in 1..255 : \A v \in 0..255 :
                        (v % a # 0 /\ (v \div a + 1) * a <= 255) => AlignLaw(v, a, 255) = (v \div a + 1) * a
    IN  [ph |-> "case", op |-> "align", w |-> 0, a |-> <<>>, s |-> s, r |-> <<add>>, ok |-> good]
AlignStep == "align" \in Ops /\
    \/ \E a \in 0..255 : st' = AlignTable(a)
    \/ \E s \in {"zero", "exact", "rest"} : st' = AlignClass(s)

-----------------------------------------------------------------------------
(* C15: cell numbers and orderings *)
CellCase(d, x) == Rec("cell", d, <<x>>, IF x >= 0 /\ x < 2^d THEN <<x>> ELSE <<>>, TRUE)
OrdCase(d, i) ==    \* r: for each cell the axis bits, flattened; then the shifts
    LET o == Orderings(d)[i]
        pos(x) == [a \in 1..d |-> CellBit(x, BitOfAxis(o, a))]
    IN  [ph |-> "case", op |-> "ord", w |-> d, a |-> <<i>>, s |-> o,
         r |-> FlattenSeq([x \in 1..(2^d) |-> pos(x - 1)]) \o [a \in 1..d |-> BitOfAxis(o, a)],
         \* a bijection onto the corners, lowest bit to the first-named axis
         ok |-> /\ Cardinality({pos(x) : x \in CellSet(d)}) = 2^d
                /\ \A b \in 0..(d-1) : pos(2^b) = [a \in 1..d |-> IF a = AxisOfBit(o, b) THEN 1 ELSE 0]]
DefOrdCase(d) == [ph |-> "case", op |-> "deford", w |-> d, a |-> <<>>, s |-> DefaultOrdering(d), r |-> <<>>, ok |-> TRUE]
CellStep == "cell" \in Ops /\ \E d \in {2, 3} :
    \/ \E x \in 0..20 \cup {255, 256, 257, 259, 65536, -1} : st' = CellCase(d, x)
    \/ \E i \in 1..Len(Orderings(d)) : st' = OrdCase(d, i)
    \/ st' = DefOrdCase(d)

Init == st = [ph |-> "start"]
Start == st.ph = "start"
(* one initial state gives one worker all the work: split it first *)
Kinds == {"bit", "spread", "align", "cell"}
Split == st.ph = "start" /\ \E q \in Kinds : st' = [ph |-> q]
Next == \/ Split
        \/ /\ \/ st.ph = "bit" /\ BitStep
              \/ st.ph = "spread" /\ SpreadStepC
              \/ st.ph = "align" /\ AlignStep
              \/ st.ph = "cell" /\ CellStep
           /\ (Emit => PrintT(ToJson(st')))
Spec == Init /\ [][Next]_st
Refines == st.ph = "case" => st.ok
=============================================================================
