----------------------------- MODULE AlignProof -----------------------------
(***************************************************************************)
(* C14 for every width at once: the classes of BitCases!AlignClass give    *)
(* the smallest multiple of the boundary not below the value, for all      *)
(* natural numbers.  v = q*a + r with r < a.  Checked by tlapm (SMT).       *)
(***************************************************************************)
EXTENDS Naturals, NaturalsInduction, TLAPS

IsAligned(v, a, x) ==        \* x is the smallest multiple of a not below v
    /\ x \in Nat /\ x >= v
    /\ \E m \in Nat : x = m * a
    /\ \A m \in Nat : m * a >= v => m * a >= x

LEMMA MulMono == ASSUME NEW p \in Nat, NEW q \in Nat, NEW a \in Nat, p <= q
                 PROVE  p * a <= q * a
PROOF
<1> DEFINE P(n) == p * a <= (p + n) * a
<1>1. P(0) BY SMT
<1>2. \A n \in Nat : P(n) => P(n + 1)
  <2> TAKE n \in Nat
  <2>1. (p + (n + 1)) * a = (p + n) * a + a BY SMT
  <2>2. (p + n) * a \in Nat /\ p * a \in Nat BY SMT
  <2> QED BY <2>1, <2>2, SMT
<1>3. q - p \in Nat /\ p + (q - p) = q BY SMT
<1>4. \A n \in Nat : P(n)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3, <1>4

THEOREM Exact == ASSUME NEW q \in Nat, NEW a \in Nat, a > 0
                 PROVE  IsAligned(q * a, a, q * a)
PROOF
<1>1. q * a \in Nat BY SMT
<1> QED BY <1>1, SMT DEF IsAligned

THEOREM Rest == ASSUME NEW q \in Nat, NEW a \in Nat, NEW r \in Nat, 0 < r, r < a
                PROVE  IsAligned(q * a + r, a, (q + 1) * a)
PROOF
<1>1. (q + 1) * a = q * a + a /\ q * a \in Nat BY SMT
<1>2. (q + 1) * a >= q * a + r /\ (q + 1) * a \in Nat BY <1>1, SMT
<1>3. ASSUME NEW m \in Nat, m * a >= q * a + r PROVE m * a >= (q + 1) * a
  <2>1. CASE m <= q
    <3>1. m * a <= q * a BY <2>1, MulMono
    <3>2. m * a \in Nat BY SMT
    <3> QED BY <3>1, <3>2, <1>1, <1>3, SMT
  <2>2. CASE q + 1 <= m
    <3>1. (q + 1) * a <= m * a BY <2>2, MulMono
    <3>2. m * a \in Nat BY SMT
    <3> QED BY <3>1, <3>2, <1>2, SMT
  <2> QED BY <2>1, <2>2, SMT
<1>4. \E m \in Nat : (q + 1) * a = m * a BY SMT
<1> QED BY <1>2, <1>3, <1>4 DEF IsAligned
=============================================================================
