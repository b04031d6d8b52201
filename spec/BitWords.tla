------------------------------ MODULE BitWords ------------------------------
(***************************************************************************)
(* Machine words and byte vectors over symbolic bits, and the bit-level    *)
(* algorithms of src/number.rs transcribed onto them.                      *)
(*                                                                         *)
(* A word is a sequence of bits, element i+1 being bit i (little end       *)
(* first).  A bit is 0, a symbolic token > 0, Clash (two tokens were or-ed *)
(* into one bit) or Poison (the step would trap: shift by the word size).  *)
(* Every operation the code performs on data bits is a move, a mask with a *)
(* constant or an or, so an identity that holds for symbolic bits holds    *)
(* for all values.  A byte vector is a sequence of 8-bit words.            *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Clash  == -1
Poison == -2

Or2(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
             ELSE IF a = Poison \/ b = Poison THEN Poison ELSE Clash
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

ZeroWord(w)   == TLCEval([i \in 1..w |-> 0])
PoisonWord(w) == TLCEval([i \in 1..w |-> Poison])
Cast(x, w)    == TLCEval([i \in 1..w |-> IF i <= Len(x) THEN x[i] ELSE 0])
Shl(x, n)     == TLCEval([i \in 1..Len(x) |-> IF i > n THEN x[i - n] ELSE 0])
Shr(x, n)     == TLCEval([i \in 1..Len(x) |-> IF i + n <= Len(x) THEN x[i + n] ELSE 0])
ShlTrap(x, n) == IF n >= Len(x) THEN PoisonWord(Len(x)) ELSE Shl(x, n)
OrW(x, y)     == TLCEval([i \in 1..Len(x) |-> Or2(x[i], y[i])])
AndMask(x, m) == TLCEval([i \in 1..Len(x) |-> IF i <= Len(m) /\ m[i] = 1 THEN x[i] ELSE 0])

(* hex digits, most significant first, as a concrete mask of 4*Len bits *)
HexMask(h) == [i \in 1..(4 * Len(h)) |->
                 (h[Len(h) - ((i - 1) \div 4)] \div (2^((i - 1) % 4))) % 2]

(* --- impl_bits! on integers ------------------------------------------- *)
WGet(x, s, e) ==       \* get_bits(s..e)
    LET m == e - s IN TLCEval([i \in 1..Len(x) |-> IF i <= m /\ i + s <= Len(x) THEN x[i + s] ELSE 0])
WSet(x, s, e, v) ==    \* set_bits(s..e, v); v is cast to the type of x first
    IF s >= Len(x) THEN PoisonWord(Len(x))
    ELSE TLCEval([i \in 1..Len(x) |->
           Or2(IF s < i /\ i <= e THEN 0 ELSE x[i],
               IF i > s /\ i - s <= Len(v) THEN v[i - s] ELSE 0)])

(* --- Vec<u8> ------------------------------------------------------------ *)
ZeroVec(n) == TLCEval([i \in 1..n |-> ZeroWord(8)])
Flat(vec)  == FlattenSeq(vec)
Bytes(x)   == TLCEval([i \in 1..((Len(x) + 7) \div 8) |-> Cast(SubSeq(x, 8*i - 7, Min2(8*i, Len(x))), 8)])
Span(a, b) == [i \in 1..Max2(0, b - a) |-> a + i - 1]     \* a..b exclusive, as a sequence

(* set_vec_u8_bits(vec, s..e, new_value) *)
VSet(vec, s, e, nv) ==
    LET Step(acc, idx) ==      \* acc = <<vec, self_start_bit, new_val_start_bit>>
          LET sEnd == Min2((idx + 1) * 8, e)
              nb   == sEnd - acc[2]
              vi   == acc[3] \div 8
              byte == IF vi = Len(nv) - 1
                      THEN WGet(nv[vi + 1], acc[3] % 8, (acc[3] % 8) + nb)
                      ELSE Cast(WGet(nv[vi + 1] \o nv[vi + 2], acc[3] - vi * 8, acc[3] - vi * 8 + nb), 8)
          IN <<[acc[1] EXCEPT ![idx + 1] = WSet(@, acc[2] - idx * 8, sEnd - idx * 8, byte)],
               sEnd, acc[3] + nb>>
    IN FoldLeft(Step, <<vec, s, 0>>, Span(s \div 8, (e + 7) \div 8))[1]

(* get_bits_as_usize *)
VGetUsize(vec, s, e) ==
    LET Step(acc, idx) ==      \* acc = <<ret, current_start_bit, usize_start_bit>>
          LET cEnd == Min2((idx + 1) * 8, e)
              nb   == cEnd - acc[2]
              sw   == acc[2] % 8
          IN <<WSet(acc[1], acc[3], acc[3] + nb, WGet(vec[idx + 1], sw, sw + nb)), cEnd, acc[3] + nb>>
    IN FoldLeft(Step, <<ZeroWord(64), s, 0>>, Span(s \div 8, (e + 7) \div 8))[1]

(* Vec<u8>::get_bits; legacy = TRUE is the original order of carry and mask *)
VGet(vec, s, e, legacy) ==
    LET numBytes == ((e - s) + 7) \div 8
        sb  == s \div 8
        eb  == (e + 7) \div 8
        sh  == s % 8
        b0  == SubSeq(vec, sb + 1, eb)
        Mask(bs, i) == IF i = Len(bs) THEN [bs EXCEPT ![i] = AndMask(@, [j \in 1..(8 - (eb * 8 - e)) |-> 1])] ELSE bs
        Carry(bs, i) == IF i > 1 /\ sh > 0
                        THEN [bs EXCEPT ![i - 1] = WSet(@, 8 - sh, 8, WGet(bs[i], 0, sh))] ELSE bs
        Step(bs, i) == LET c == IF legacy THEN Mask(Carry(bs, i), i) ELSE Carry(Mask(bs, i), i)
                       IN TLCEval([c EXCEPT ![i] = Shr(@, sh)])
        r == FoldLeft(Step, b0, [i \in 1..Len(b0) |-> i])
    IN IF eb - sb > numBytes THEN SubSeq(r, 1, Len(r) - 1) ELSE r

(* --- bit spreading ------------------------------------------------------ *)
SpreadStep(x, sh, mask) == AndMask(OrW(x, Shl(x, sh)), mask)
SpreadBefore8(x, legacy) ==        \* add_zero_before_every_bit_u8
    LET r == IF legacy THEN x ELSE AndMask(x, HexMask(<<0, 15>>))
    IN SpreadStep(SpreadStep(r, 2, HexMask(<<3, 3>>)), 1, HexMask(<<5, 5>>))
SpreadBehind8(x, legacy) == Shl(SpreadBefore8(x, legacy), 1)
SpreadBefore16(x, legacy) ==
    LET r == IF legacy THEN x ELSE AndMask(x, HexMask(<<0, 0, 15, 15>>))
    IN SpreadStep(SpreadStep(SpreadStep(r, 4, HexMask(<<0, 15, 0, 15>>)), 2, HexMask(<<3, 3, 3, 3>>)),
                  1, HexMask(<<5, 5, 5, 5>>))
SpreadTwo8(x) ==                   \* add_two_zeroes_before_every_bit_u8 : u8 -> u32
    SpreadStep(SpreadStep(SpreadStep(Cast(x, 32), 8, HexMask(<<0, 15, 0, 0, 15, 0, 0, 15>>)),
               4, HexMask(<<12, 3, 0, 12, 3, 0, 12, 3>>)), 2, HexMask(<<4, 9, 2, 4, 9, 2, 4, 9>>))
SpreadTwo32(x) ==                  \* add_two_zeroes_before_every_bit_u32 : u32 -> u64
    LET v == AndMask(Cast(x, 64), [i \in 1..21 |-> 1])
        a == SpreadStep(v, 32, HexMask(<<0,0,15,15, 0,0,0,0, 0,0,0,0, 15,15,15,15>>))
        b == SpreadStep(a, 16, HexMask(<<0,0,15,15, 0,0,0,0, 15,15,0,0, 0,0,15,15>>))
        c == SpreadStep(b, 8,  HexMask(<<15,0,0,15, 0,0,15,0, 0,15,0,0, 15,0,0,15>>))
        e == SpreadStep(c, 4,  HexMask(<<3,0,12,3, 0,12,3,0, 12,3,0,12, 3,0,12,3>>))
    IN  SpreadStep(e, 2, HexMask(<<1,2,4,9, 2,4,9,2, 4,9,2,4, 9,2,4,9>>))
(* the law they must satisfy: bit i of the low n bits goes to slot f*i + o *)
SpreadLaw(x, n, f, o, w) ==
    [j \in 1..w |-> IF (j - 1) >= o /\ (j - 1 - o) % f = 0 /\ (j - 1 - o) \div f < n
                    THEN x[((j - 1 - o) \div f) + 1] ELSE 0]
=============================================================================
