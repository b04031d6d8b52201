----------------------------- MODULE MortonCases -----------------------------
(***************************************************************************)
(* One step of every operation from every canonical symbolic state, at the *)
(* real word widths (8..128 bits) and for dynamic depths, checked to refine *)
(* the design: the implementation-shaped algorithm (MortonImpl), run on the *)
(* packed symbolic representation, must give the outcome of MortonDesign    *)
(* and the canonical packing of its result.  Since every state reachable by *)
(* the API is one of these canonical states (that is what is preserved) and *)
(* cells are symbolic, one step from each state covers every history and    *)
(* every cell value.                                                        *)
(*                                                                          *)
(* Each transition is also printed (Emit) as a template [op, d, w, k, n,    *)
(* arguments, outcome, result tokens]; the harness instantiates it with     *)
(* real cells and runs it on the real code, alone and composed into walks.  *)
(* Result token t <= 1000: cell t of the argument; 1000+i: i-th argument    *)
(* cell; bits: token*4+b; grid bits: 100000 + 1000*axis + bit; 0: zero.     *)
(* The argument -1 stands for any huge number.                              *)
(***************************************************************************)
EXTENDS MortonImpl, Json, FiniteSets

CONSTANTS Ops,       \* operations to explore
          Dims,      \* {2, 3} or a subset
          Own,       \* widths of a caller's own words, besides the built-in ones
          Deep,      \* TRUE: thorough sets of depths and levels
          Emit

VARIABLE st

Widths == {8, 16, 32, 64, 128} \cup Own
Caps(d, w) == w \div d

Huge == -1
Arg(i)  == 1000 + i
Args(m) == [i \in 1..m |-> Arg(i)]
Base(n) == [i \in 1..n |-> i]

DynDense == IF Deep THEN 140 ELSE 26
DynDepths == 0..DynDense \cup {31,32,33,40,41,42,43,63,64,65,66,85,86,100,127,128,129,170,171,
                               254,255,256,257,300,513}
(* positions worth visiting in a range 0..m (all of them when small) *)
Near(m) == IF m <= 42 \/ (Deep /\ m <= 140) THEN 0..m
           ELSE {x \in 0..9 \cup {15,16,17,20,21,22,23,30,31,32,33,41,42,43,62,63,64,65,126,127,128,129,130,254,255,256,257,258}
                    \cup {m \div 2} \cup (m-9)..m : x >= 0 /\ x <= m}

TypeNodes == {[ph |-> "type", d |-> d, w |-> w, k |-> k, n |-> 0] :
                d \in Dims, w \in Widths, k \in {"F", "S"}}
             \cup {[ph |-> "type", d |-> d, w |-> 0, k |-> "D", n |-> 0] : d \in Dims}
IndexNodes == {t \in UNION {{[ph |-> "index", d |-> d, w |-> w, k |-> k, n |-> n] : n \in 0..(w \div d)} :
                 d \in Dims, w \in Widths, k \in {"F", "S"}} : t.k = "S" \/ t.n = t.w \div t.d}
              \cup {[ph |-> "index", d |-> d, w |-> 0, k |-> "D", n |-> n] : d \in Dims, n \in DynDepths}

FarInit == {[ph |-> "far", d |-> d, w |-> 0, k |-> "D", n |-> n] : d \in Dims, n \in
              {1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537}}
Init == st \in TypeNodes \cup IndexNodes \cup FarInit

-----------------------------------------------------------------------------
(* representation of a symbolic index *)
Rep(t, c)    == IF t.k = "D" THEN PackV(t.d, c) ELSE PackW(t.d, t.w, c)
RepOf(k, d, w, c) == IF k = "D" THEN PackV(d, c) ELSE PackW(d, w, c)
Val(t)       == Idx(t.k, Base(t.n))

(* a result: design outcome R (an MortonDesign outcome), implementation      *)
(* representation x of the result (ignored unless ok), guard: what the       *)
(* implementation's own test decides (its outcome)                            *)
Mk(t, op, a, s, k2, w2, R, iout, x) ==
    LET isok == R.out = "ok"
        r == IF isok THEN R.v.c ELSE <<>>
    IN [ph |-> "case", op |-> op, d |-> t.d, w |-> t.w, k |-> t.k, n |-> t.n, a |-> a, s |-> s,
        k2 |-> k2, w2 |-> w2, out |-> R.out, max |-> IF R.out = "err" THEN R.max ELSE 0, r |-> r,
        ok |-> iout = R.out /\ (isok => x = RepOf(R.v.k, t.d, w2, r))]
(* same, for results that are plain token lists *)
MkList(t, op, a, s, out, r, good) ==
    [ph |-> "case", op |-> op, d |-> t.d, w |-> t.w, k |-> t.k, n |-> t.n, a |-> a, s |-> s,
     k2 |-> t.k, w2 |-> t.w, out |-> out, max |-> 0, r |-> r, ok |-> good]

Out(b, yes, no) == IF b THEN yes ELSE no
Cap(t) == Capacity(t.k, t.d, t.w)

-----------------------------------------------------------------------------
(* constructors *)
NewLens(t) == IF t.k = "D" THEN DynDepths ELSE 0..(Cap(t) + 2) \cup {Cap(t) + 8, 128, 255, 256, 257, 258, 300, 512, 514}
New(t, m) ==
    LET R == FromCells(t.k, t.d, t.w, Args(m))
        io == IF t.k = "D" \/ m <= t.w \div t.d THEN "ok" ELSE "err"
    IN  Mk(t, "new", <<m>>, "", t.k, t.w, R, io,
           IF io # "ok" THEN <<>> ELSE IF t.k = "D" THEN VBuild(t.d, Args(m)) ELSE WBuild(t.d, t.w, Args(m)))
Def(t) == Mk(t, "def", <<>>, "", t.k, t.w, Ok(DefaultIdx(t.k, t.d, t.w)), "ok",
             IF t.k = "D" THEN <<>> ELSE ZeroWord(t.w))
ZerDepths(t) == IF t.k = "D" THEN DynDepths ELSE 0..255
Zer(t, m) == Mk(t, "zer", <<m>>, "", t.k, t.w, ZeroedIdx(t.k, t.d, t.w, m),
                IF t.k = "D" \/ m <= t.w \div t.d THEN "ok" ELSE "none",
                IF t.k = "D" THEN VZeroed(t.d, m) ELSE ZeroWord(t.w))

GridTok(a, k) == 100000 + 1000 * a + k
GridWords(d) == [a \in 1..d |-> TLCEval([i \in 1..64 |-> GridTok(a, i - 1)])]
GridBits(d)  == [a \in 1..d |-> TLCEval([i \in 1..64 |-> GridTok(a, 64 - i)])]  \* msb first
GridDepths(t) == CASE t.k = "F" -> {Cap(t)}
                   [] t.k = "S" -> 0..(Cap(t) + 2) \cup {64, 65, 66, 128, 255, 256, 257, 300, Huge}
                   [] t.k = "D" -> 0..32
Grid(t, n, o) ==
    LET fits == n # Huge /\ n <= (IF t.k = "D" THEN DynamicGridMax ELSE Cap(t))
        cb == CellBitsOfGrid(GridBits(t.d), o, n)
        g  == GridWords(t.d)
        x  == CASE t.k = "F" /\ t.d = 2 -> GridF2(t.w, g, o)
                [] t.k = "F" /\ t.d = 3 -> GridF3(t.w, g, o)
                [] t.k = "S" /\ t.d = 2 -> GridS2(t.w, g, n, o)
                [] t.k = "S" /\ t.d = 3 -> GridS3(t.w, g, n, o)
                [] t.k = "D" /\ t.d = 2 -> Flat(GridD2(g, n, o))
                [] t.k = "D" /\ t.d = 3 -> Flat(GridD3(g, n, o))
    IN  IF ~fits THEN [Mk(t, "fg", <<n>>, o, t.k, t.w, Err(Cap(t)), "err", <<>>) EXCEPT !.ok = TRUE]
        ELSE MkList(t, "fg", <<n>>, o, "ok", FlattenSeq(cb),
               x = PackWB(t.d, IF t.k = "D" THEN 8 * VecBytes(t.d, n) ELSE t.w, cb))
Fast(t, o) ==
    LET cb == CellBitsOfGrid(GridBits(3), o, 21)
    IN  MkList(t, "ff", <<21>>, o, "ok", FlattenSeq(cb), GridFast(GridWords(3), o) = PackWB(3, 64, cb))

(* comparison classes: depths n1, n2, common prefix of p cells, then the     *)
(* first differing cell is smaller ("lt") / greater ("gt"), or none ("px")   *)
CmpDepths(t) == CASE t.k = "F" -> {Cap(t)}
                  [] t.k = "S" -> IF Cap(t) <= 10 \/ Deep THEN 0..Cap(t)
                                  ELSE {x \in {0,1,2,3,4,7,8,9,15,16,17,21,31,32,33,41,42,62,63,64}
                                              \cup {Cap(t) \div 2, Cap(t)-1, Cap(t)} : x <= Cap(t)}
                  [] t.k = "D" -> 0..9 \cup {15,16,17,31,32,33,63,64,65,128,255,256,257,300}
CmpPrefixes(m) == IF m <= 10 \/ Deep THEN 0..m
                  ELSE {x \in {0,1,2,3,4,5,7,8,15,16,20,21,31,32,42,62,63,64,127,128,255,256} \cup {m \div 2, m-2, m-1, m} : x >= 0 /\ x <= m}
Cmp(t, n1, n2, p, rel) ==
    LET top == 2^t.d - 1
        common == [i \in 1..p |-> (i * 5) % (top + 1)]
        \* adversarial tails: the smaller side has the larger tail
        Side(n, x, y) == common \o [i \in 1..(n - p) |-> IF i = 1 THEN x ELSE y]
        ca == IF rel = "lt" THEN Side(n1, 0, top) ELSE IF rel = "gt" THEN Side(n1, 1, 0) ELSE Side(n1, 0, 0)
        cb == IF rel = "lt" THEN Side(n2, 1, 0) ELSE IF rel = "gt" THEN Side(n2, 0, top) ELSE Side(n2, 0, 0)
        want == CmpCells(ca, cb)
        got == CASE t.k = "F" -> MsbCmp(PackC(t.d, t.w, ca), PackC(t.d, t.w, cb))
                 [] t.k = "S" -> StaticCmp(t.d, t.w, PackC(t.d, t.w, ca), n1, PackC(t.d, t.w, cb), n2)
                 [] t.k = "D" -> DynCmp(ca, cb)
    IN  MkList(t, "cmp", <<n1, n2, p>>, rel, want, <<>>, got = want)
CmpCases(t) ==
    UNION {UNION {UNION {{<<n1, n2, p, rel>> : rel \in
        (IF p < Min2(n1, n2) THEN {"lt", "gt"} ELSE {"px"})} :
            p \in CmpPrefixes(Min2(n1, n2))} : n2 \in CmpDepths(t)} : n1 \in CmpDepths(t)}

-----------------------------------------------------------------------------
(* operations on an index *)
Levels(t) == IF t.n = 0 THEN {} ELSE Near(t.n - 1)
Beyond(t) == {t.n, t.n + 1, t.n + 7, Huge}
SetLv(t, l) ==
    LET in == l # Huge /\ l < t.n
        R  == IF l = Huge THEN Panic ELSE SetLevel(Val(t), l, Arg(1))
    IN  Mk(t, "set", <<l>>, "", t.k, t.w, R, Out(in, "ok", "panic"),
           IF ~in THEN <<>> ELSE IF t.k = "D" THEN VSetCell(t.d, Rep(t, Base(t.n)), l, Arg(1))
                            ELSE WSetCell(t.d, Rep(t, Base(t.n)), l, Arg(1)))
GetLv(t, l) ==
    LET in == l # Huge /\ l < t.n
        R  == IF l = Huge THEN Panic ELSE GetLevel(Val(t), l)
        got == IF ~in THEN 0 ELSE IF t.k = "D" THEN VGetCell(t.d, Rep(t, Base(t.n)), l)
                                  ELSE WGetCell(t.d, Rep(t, Base(t.n)), l)
    IN  MkList(t, "get", <<l>>, "", R.out, IF in THEN <<R.v>> ELSE <<>>,
               R.out = Out(in, "ok", "panic") /\ (in => got = R.v))
Gens(t) == (Near(t.n) \ {0}) \cup {t.n + 1, t.n + 2, Huge}
Anc(t, g) ==
    LET R == IF g = Huge THEN None ELSE Ancestor(Val(t), g)
        in == g # Huge /\ g <= t.n
    IN  Mk(t, "anc", <<g>>, "", t.k, t.w, R, Out(in, "ok", "none"),
           IF ~in THEN <<>> ELSE IF t.k = "D" THEN VAncestor(t.d, Rep(t, Base(t.n)), t.n, g)
                            ELSE WAncestor(t.d, Rep(t, Base(t.n)), t.n, g))
Par(t) == [Anc(t, 1) EXCEPT !.op = "par", !.a = <<>>]
(* with_depth: itself, none when deeper, else the ancestor *)
WDp(t, m) ==
    LET R == IF m = Huge THEN None ELSE WithDepth(Val(t), m)
        in == m # Huge /\ m <= t.n
        x  == Rep(t, Base(t.n))
    IN  Mk(t, "wd", <<m>>, "", t.k, t.w, R, Out(in, "ok", "none"),
           IF ~in THEN <<>> ELSE IF m = t.n THEN x
           ELSE IF t.k = "D" THEN VAncestor(t.d, x, t.n, t.n - m) ELSE WAncestor(t.d, x, t.n, t.n - m))
PathLens(t) ==
    IF t.k = "D"
    THEN IF t.n <= DynDense THEN 0..9 \cup {16, 33, 64} ELSE 0..3 \cup {5, 8} \cup {x \in {255 - t.n, 256 - t.n, 257 - t.n} : x >= 0}
    ELSE IF Cap(t) <= 21 \/ Deep THEN 0..(Cap(t) + 2 - t.n) \cup {255 - t.n, 256 - t.n, 257 - t.n, 256, 300}
         ELSE {x \in 0..5 \cup {8, 16, 21, 32} \cup (Cap(t) - t.n - 2)..(Cap(t) - t.n + 2)
                     \cup {255 - t.n, 256 - t.n, 257 - t.n, 256, 300} : x >= 0}
Des(t, m) ==
    LET R == Descendant(Val(t), t.d, t.w, Args(m))
        in == t.k = "D" \/ t.n + m <= t.w \div t.d
    IN  Mk(t, "desc", <<m>>, "", t.k, t.w, R, Out(in, "ok", "none"),
           IF ~in THEN <<>> ELSE IF t.k = "D" THEN VDescendant(t.d, Rep(t, Base(t.n)), t.n, Args(m))
                            ELSE WDescendant(t.d, Rep(t, Base(t.n)), t.n, Args(m)))
Chd(t) == [Des(t, 1) EXCEPT !.op = "chd", !.a = <<>>]
Inv(t) == Mk(t, "inv", <<>>, "", t.k, t.w, Ok(Inverted(Val(t))), "ok",
             IF t.k = "D" THEN VInverted(t.d, Rep(t, Base(t.n)), t.n) ELSE WInverted(t.d, Rep(t, Base(t.n)), t.n))

Targets(t) == CASE t.k = "F" -> {<<"S", t.w>>, <<"D", t.w>>}
                [] t.k = "S" -> {<<"F", t.w>>, <<"D", t.w>>}
                [] t.k = "D" -> {"F", "S"} \X Widths
Cnv(t, k2, w2) ==
    LET R == Convert(Val(t), k2, t.d, w2)
        x == Rep(t, Base(t.n))
        fits == k2 = "D" \/ t.n <= w2 \div t.d
        y == CASE k2 = "D" /\ t.k = "F" -> FixedToDyn(x)
               [] k2 = "D" /\ t.k = "S" -> StaticToDyn(t.d, x, t.n)
               [] k2 = "F" /\ t.k = "S" -> x
               [] k2 = "S" /\ t.k = "F" -> x
               [] k2 = "F" /\ t.k = "D" -> DynToFixed(w2, x)
               [] k2 = "S" /\ t.k = "D" -> DynToStatic(t.d, w2, x, t.n)
    IN  Mk(t, "cnv", <<>>, "", k2, w2, R, Out(fits, "ok", "err"), IF fits THEN y ELSE <<>>)

BaseBits(t) == [l \in 1..t.n |-> [b \in 1..t.d |-> BT(l, b - 1)]]
Tgr(t, o) ==
    LET ax == TLCEval([a \in 1..t.d |-> GridAxis(BaseBits(t), o, a)])
    IN  MkList(t, "tg", <<>>, o, "ok", FlattenSeq(ax),
               \A a \in 1..t.d : ToGridWord(t.d, BaseBits(t), o, a)
                                  = Cast(RevSeq(ax[a]), 64))
(* up g levels, down a path of m cells, then the grid position: the nodes    *)
(* nest as the cubes of the grid do                                           *)
Nst(t, g, m, o) ==
    LET bits == SubSeq(BaseBits(t), 1, t.n - g) \o [i \in 1..m |-> [b \in 1..t.d |-> BT(Arg(i), b - 1)]]
        v  == Descendant(Ancestor(Val(t), g).v, t.d, t.w, Args(m)).v
        ax == TLCEval([a \in 1..t.d |-> GridAxis(bits, o, a)])
        bx == TLCEval([a \in 1..t.d |-> GridAxis(BaseBits(t), o, a)])
    IN  MkList(t, "nst", <<g, m>>, o, "ok", FlattenSeq(ax),
               /\ v.c = Prefix(Base(t.n), t.n - g) \o Args(m)
               \* drop the low g bits of every coordinate, append m others
               /\ \A a \in 1..t.d : Prefix(ax[a], t.n - g) = Prefix(bx[a], t.n - g) /\ Len(ax[a]) = t.n - g + m
               /\ \A a \in 1..t.d : ToGridWord(t.d, bits, o, a) = Cast(RevSeq(ax[a]), 64))
NstGens(t) == {x \in {0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 21, 31, 32, 33} \cup {t.n \div 2, t.n - 2, t.n - 1, t.n} : x >= 0 /\ x <= t.n}
NstPaths(t, g) == {m \in {0, 1, 2, 5, g, g + 1} : t.n - g + m <= Min2(Cap(t), 64)}
(* two positions whose cells first differ at level p, compared through the    *)
(* indices built from them; r says how cells make up positions                *)
Zc(t, n, p, rel, o) ==
    LET top == 2^t.d - 1
        ca == [i \in 1..n |-> IF i <= p THEN (i * 3) % (top + 1) ELSE IF i = p + 1 THEN (IF rel = "lt" THEN top - 1 ELSE top) ELSE IF rel = "lt" THEN top ELSE 0]
        cb == [i \in 1..n |-> IF i <= p THEN (i * 3) % (top + 1) ELSE IF i = p + 1 THEN (IF rel = "lt" THEN top ELSE top - 1) ELSE IF rel = "lt" THEN 0 ELSE top]
        word(c) == LET g == TLCEval(ToGrid(Idx("S", c), t.d, o)) IN
                   FlattenSeq([l \in 1..n |-> [i \in 1..t.d |-> g[AxisOfBit(o, t.d - i)][l]]])
        less(x, y) == LET i == FirstDiff(x, y) IN i # 0 /\ x[i] < y[i]
        bits == [l \in 1..n |-> [b \in 1..t.d |-> BT(l, b - 1)]]
    IN  MkList(t, "zc", <<n, p>>, o, rel, FlattenSeq([a \in 1..t.d |-> GridAxis(bits, o, a)]),
               /\ CmpCells(ca, cb) = rel
               /\ less(word(ca), word(cb)) = (rel = "lt"))
ZcDepths(t) == CASE t.k = "F" -> {Cap(t)} [] t.k = "S" -> {n \in CmpDepths(t) : n > 0} [] t.k = "D" -> {1, 2, 3, 5, 8, 9, 15, 16, 17, 21, 22, 31, 32}
ZcLevels(n) == {x \in {0, 1, 2, 3, 7, 8, 10, 15, 16, 20, 21, 31, 32, 42, n \div 2, n - 2, n - 1} : x >= 0 /\ x < n}
(* names: r holds the text tokens of MortonDesign *)
Nam(t, nm) == MkList(t, "nam", <<>>, nm, "ok", NameText(Base(t.n), BaseBits(t), t.d, nm), TRUE)
(* a displayed slice of indices of the depths ns; cells numbered throughout *)
Dsp(t, ns, nm) ==
    LET off(i) == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(ns, 1, i - 1))
        cs(i)  == [l \in 1..ns[i] |-> off(i) + l]
        cb(i)  == [l \in 1..ns[i] |-> [b \in 1..t.d |-> BT(off(i) + l, b - 1)]]
    IN  MkList(t, "dsp", ns, nm, "ok",
               DisplayText([i \in 1..Len(ns) |-> NameText(cs(i), cb(i), t.d, nm)]), TRUE)
Copies(m, x) == [i \in 1..m |-> x]
DspLists(t) == IF t.k = "F" THEN {<<>>, <<t.n>>, <<t.n, t.n>>, <<t.n, t.n, t.n, t.n>>}
               ELSE (IF t.n \in {0, 1, 2} THEN {Copies(17, t.n), Copies(130, t.n), Copies(257, t.n), Copies(300, t.n)} ELSE {}) \cup
                    {<<>>, <<t.n>>, <<0, t.n>>, <<t.n, 0>>, <<0, t.n, 0>>, <<t.n, t.n, t.n>>, <<0, 0, t.n, t.n \div 2, 0>>}

(* the cell iterator: in position p, one more call *)
RECURSIVE NextTimes(_, _)
NextTimes(x, j) == IF j = 0 \/ x.y = <<>> THEN x ELSE NextTimes(CurNext(x.u), j - 1)
IterPos(t) == IF Deep THEN {x \in Near(t.n) : x <= 9 \/ x >= t.n - 9 \/ x % 8 = 7} ELSE {x \in {0, 1, 2, t.n \div 2, t.n - 2, t.n - 1, t.n} : x >= 0 /\ x <= t.n}
IterSkip(t, p) == {j \in {0, 1, 2, 3, t.n - p - 2, t.n - p - 1, t.n - p, t.n - p + 1, 255 - p, 256 - p} : j >= 0} \cup {Huge}
It(t, p, f, j) ==
    LET u == [c |-> Base(t.n), p |-> p]
        big == t.n + 1
        R == CASE f = "next" -> CurNext(u)
               [] f = "nth"  -> CurNth(u, IF j = Huge THEN big ELSE j)
               [] f = "last" -> [y |-> CurLast(u), u |-> [u EXCEPT !.p = t.n]]
               [] f = "every" -> [y |-> CurEvery(u, j), u |-> [u EXCEPT !.p = t.n]]
               [] f = "rest" -> [y |-> Rest(u), u |-> [u EXCEPT !.p = t.n]]
               [] f = "count" -> [y |-> <<>>, u |-> [u EXCEPT !.p = t.n]]
               [] f = "hint" -> [y |-> <<>>, u |-> u]
    IN  MkList(t, "it", <<p, j, R.u.p>>, f, "ok", R.y,
               f = "nth" => R = NextTimes(CurNext(u), IF j = Huge THEN big ELSE j))
MaxLevels(t) == MkList(t, "max", <<>>, "", IF t.k = "D" THEN "none" ELSE "ok",
                 IF t.k = "D" THEN <<>> ELSE <<Capacity(t.k, t.d, t.w)>>, TRUE)
Raw(t) == MkList(t, "raw", <<>>, "", "ok", PackW(t.d, t.w, Base(t.n)),
                 \A l \in 1..t.n : WGetCell(t.d, PackW(t.d, t.w, Base(t.n)), l - 1) = l)

-----------------------------------------------------------------------------
(* Far down: dynamic indices of thousands of levels, on the design alone     *)
(* (the implementation-shaped step does not depend on the depth beyond bytes *)
(* and words, which the depths above cover; a counter in the code may).       *)
(* Tokens of argument cells start at 1000001 here; r is run-length coded:     *)
(* triples <<first token, step, length>>.                                     *)
FarArg(m) == [i \in 1..m |-> 1000000 + i]
Runs(r) ==
    LET Step(acc, x) ==      \* acc = <<finished runs, first, step, length>>
          IF acc[4] = 0 THEN <<acc[1], x, 0, 1>>
          ELSE IF acc[4] = 1 /\ x - acc[2] \in {-1, 0, 1} THEN <<acc[1], acc[2], x - acc[2], 2>>
          ELSE IF acc[4] > 1 /\ x = acc[2] + acc[3] * acc[4] THEN <<acc[1], acc[2], acc[3], acc[4] + 1>>
          ELSE <<acc[1] \o <<acc[2], acc[3], acc[4]>>, x, 0, 1>>
        z == FoldLeft(Step, <<<<>>, 0, 0, 0>>, r)
    IN  IF z[4] = 0 THEN <<>> ELSE z[1] \o <<z[2], z[3], z[4]>>
Far(t, op, a, s, R) ==
    [ph |-> "case", op |-> op, d |-> t.d, w |-> 0, k |-> "D", n |-> t.n, a |-> a, s |-> s, k2 |-> "D", w2 |-> 0, far |-> 1,
     out |-> R.out, max |-> 0, r |-> IF R.out = "ok" THEN Runs(R.v.c) ELSE <<>>, ok |-> TRUE]
FarStep(Do(_), Has(_)) ==
    LET t == st  n == st.n  v == Idx("D", Base(n))
        S == {0, 1, 255, 256, 257, n \div 2, n - 1}
        up(x) == x > 0 /\ x <= n
    IN \/ Has("new") /\ Do(Far([t EXCEPT !.n = 0], "new", <<n>>, "", FromCells("D", t.d, 0, FarArg(n))))
       \/ Has("zer") /\ Do(Far([t EXCEPT !.n = 0], "zer", <<n>>, "", ZeroedIdx("D", t.d, 0, n)))
       \/ Has("set") /\ \E l \in S : Do(Far(t, "set", <<l>>, "", SetLevel(v, l, FarArg(1)[1])))
       \/ Has("set") /\ Do(Far(t, "set", <<n>>, "", SetLevel(v, n, 0)))
       \/ Has("get") /\ \E l \in S : Do(Far(t, "get", <<l>>, "", Ok(Idx("D", <<GetLevel(v, l).v>>))))
       \/ Has("get") /\ Do(Far(t, "get", <<n>>, "", GetLevel(v, n)))
       \/ Has("anc") /\ \E g \in {1, 255, 256, 257, n - 256, n - 1, n, n + 1} : g > 0 /\ Do(Far(t, "anc", <<g>>, "", Ancestor(v, g)))
       \/ Has("par") /\ Do(Far(t, "par", <<>>, "", Parent(v)))
       \/ Has("wd") /\ \E m \in {0, 1, 255, 256, n - 1, n, n + 1} : Do(Far(t, "wd", <<m>>, "", WithDepth(v, m)))
       \/ Has("desc") /\ \E m \in {0, 1, 2, 255, 256, 257} : Do(Far(t, "desc", <<m>>, "", Descendant(v, t.d, 0, FarArg(m))))
       \/ Has("desc") /\ Do(Far([t EXCEPT !.n = 3], "desc", <<n>>, "", Descendant(Idx("D", Base(3)), t.d, 0, FarArg(n))))
       \/ Has("chd") /\ Do(Far(t, "chd", <<>>, "", Child(v, t.d, 0, FarArg(1)[1])))
       \/ Has("inv") /\ Do(Far(t, "inv", <<>>, "", Ok(Inverted(v))))
       \/ Has("cnv") /\ \E k2 \in {"F", "S"}, w2 \in Widths :
             LET R == Convert(v, k2, t.d, w2)
             IN  Do([Far(t, "cnv", <<>>, "", R) EXCEPT !.k2 = k2, !.w2 = w2, !.max = R.max])
       \/ Has("it") /\ n \in {1024, 65537} /\ \E p \in {0, 255, 256, 65535, n - 1, n}, f \in {"next", "nth", "last", "count", "hint", "rest"} :
             \E j \in (IF f = "nth" THEN {0, 255, 256, 65535 - p, 65536 - p, n - p - 1, n - p} ELSE {0}) :
               p <= n /\ j >= 0 /\
               LET u == [c |-> v.c, p |-> p]
                   R == CASE f \in {"next", "nth"} -> CurNth(u, j)
                          [] f = "last" -> [y |-> CurLast(u), u |-> [u EXCEPT !.p = n]]
                          [] f = "rest" -> [y |-> Rest(u), u |-> [u EXCEPT !.p = n]]
                          [] f = "count" -> [y |-> <<>>, u |-> [u EXCEPT !.p = n]]
                          [] f = "hint" -> [y |-> <<>>, u |-> u]
               IN  Do(Far(t, "it", <<p, j, R.u.p>>, f, Ok(Idx("D", R.y))))
       \/ Has("nam") /\ \E nm \in {"cells", "root"} :
             Do(Far(t, "nam", <<>>, nm, Ok(Idx("D", NameText(v.c, <<>>, t.d, nm)))))
       \/ Has("cmp") /\ \E n2 \in {n - 256, n - 1, n, n + 1, n + 256}, p \in {0, 255, 256, n - 257, n - 1, n} :
             \E rel \in (IF p < Min2(n, n2) THEN {"lt", "gt"} ELSE {"px"}) :
               p <= Min2(n, n2) /\ p >= 0 /\
               LET Z(m, x) == [i \in 1..m |-> IF i = p + 1 THEN x ELSE 0]
                   o == CmpCells(Z(n, IF rel = "gt" THEN 1 ELSE 0), Z(n2, IF rel = "lt" THEN 1 ELSE 0))
               IN  (rel = "px" => p = Min2(n, n2)) /\
                   Do([Far([t EXCEPT !.n = 0], "cmp", <<n, n2, p>>, rel, None) EXCEPT !.out = o])

Do(c) == /\ st' = c
         /\ (Emit => PrintT(ToJson(c)))
Has(op) == op \in Ops

TypeStep ==
    /\ st.ph = "type"
    /\ \/ Has("new") /\ \E m \in NewLens(st) : Do(New(st, m))
       \/ Has("def") /\ Do(Def(st))
       \/ Has("zer") /\ st.k # "F" /\ \E m \in ZerDepths(st) : Do(Zer(st, m))
       \/ Has("fg") /\ \E n \in GridDepths(st) : \E i \in 1..Len(Orderings(st.d)) : Do(Grid(st, n, Orderings(st.d)[i]))
       \/ Has("ff") /\ st.d = 3 /\ st.w = 64 /\ st.k = "F" /\ \E i \in 1..6 : Do(Fast(st, Orderings(3)[i]))
       \/ Has("max") /\ Do(MaxLevels(st))
       \/ Has("cmp") /\ \E c \in CmpCases(st) : Do(Cmp(st, c[1], c[2], c[3], c[4]))
       \/ Has("zc") /\ \E n \in ZcDepths(st) : \E p \in ZcLevels(n), rel \in {"lt", "gt"}, i \in 1..Len(Orderings(st.d)) :
             Do(Zc(st, n, p, rel, Orderings(st.d)[i]))
IndexStep ==
    /\ st.ph = "index"
    /\ \/ Has("set") /\ \E l \in Levels(st) \cup Beyond(st) : Do(SetLv(st, l))
       \/ Has("get") /\ \E l \in Levels(st) \cup Beyond(st) : Do(GetLv(st, l))
       \/ Has("anc") /\ st.k # "F" /\ \E g \in Gens(st) : Do(Anc(st, g))
       \/ Has("par") /\ st.k # "F" /\ Do(Par(st))
       \/ Has("wd") /\ st.k # "F" /\ \E m \in Near(st.n) \cup {st.n + 1, st.n + 2, Huge} : Do(WDp(st, m))
       \/ Has("desc") /\ st.k # "F" /\ \E m \in PathLens(st) : Do(Des(st, m))
       \/ Has("chd") /\ st.k # "F" /\ Do(Chd(st))
       \/ Has("inv") /\ Do(Inv(st))
       \/ Has("cnv") /\ \E x \in Targets(st) : Do(Cnv(st, x[1], x[2]))
       \/ Has("tg") /\ st.n <= 64 /\ \E i \in 1..Len(Orderings(st.d)) : Do(Tgr(st, Orderings(st.d)[i]))
       \/ Has("nst") /\ st.k # "F" /\ st.n <= 64 /\ \E g \in NstGens(st) : \E m \in NstPaths(st, g), i \in 1..Len(Orderings(st.d)) :
             (Deep \/ st.n <= 5 \/ (i + st.n + g + m) % st.d = 0) /\ Do(Nst(st, g, m, Orderings(st.d)[i]))
       \/ Has("nam") /\ \E nm \in {"cells", "root", "grid"} : (nm = "grid" => st.n <= 64) /\ Do(Nam(st, nm))
       \/ Has("dsp") /\ \E nm \in {"cells", "root", "grid"}, ns \in DspLists(st) : (nm = "grid" => st.n <= 64) /\ Do(Dsp(st, ns, nm))
       \/ Has("it") /\ \E p \in IterPos(st) :
            \/ \E f \in {"next", "last", "rest", "count", "hint"} : Do(It(st, p, f, 0))
            \/ \E j \in IterSkip(st, p) : Do(It(st, p, "nth", j))
            \/ \E j \in {1, 2, 6} : Do(It(st, p, "every", j))
       \/ Has("raw") /\ st.k # "D" /\ Do(Raw(st))
Next == TypeStep \/ IndexStep \/ (st.ph = "far" /\ FarStep(Do, Has))
Spec == Init /\ [][Next]_st

(* the implementation-shaped step refines the design *)
Refines == st.ph = "case" => st.ok
=============================================================================
