------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* Dynamic indices of billions of levels.  Such an index is represented     *)
(* sparsely: its depth, and the levels whose cell is not zero.  Levels and   *)
(* depths are pairs <<q, r>> standing for q * B + r, since TLC's integers    *)
(* end at 2^31 and the interesting places lie beyond: where a bit number or  *)
(* a level outgrows 31 or 32 bits.                                          *)
(*                                                                         *)
(* With a small B and Ns all depths up to B*B, TLC checks that the sparse    *)
(* operators refine MortonDesign (Agrees, Steps).  With B = 65536 it prints  *)
(* every behaviour as a script of calls with the expected answers, which     *)
(* the harness runs on the real code.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

MD == INSTANCE MortonDesign

CONSTANTS D,        \* dimension
          B,        \* base of the pairs
          Emit      \* print scripts for the code; otherwise check the refinement

VARIABLES v,        \* the sparse index
          h,        \* the calls so far: sequence of <<code, q, r, x>>
          ph        \* how many steps were taken, by kind

vars == <<v, h, ph>>

(* --- pairs --- *)
Num(a) == a[1] * B + a[2]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Big(x) == <<x \div B, x % B>>              \* of a small number
Add(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + r \div B, r % B>>
Sub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + B - b[2]>>

(* --- the sparse operators --- *)
None == [out |-> "none"]
Panic == [out |-> "panic"]
Ok(x) == [out |-> "ok", v |-> x]
Zeroed(n) == [n |-> n, m |-> {}]
At(x, l) == LET S == {e \in x.m : e[1] = l} IN IF S = {} THEN 0 ELSE (CHOOSE e \in S : TRUE)[2]
Get(x, l) == IF Less(l, x.n) THEN Ok(At(x, l)) ELSE Panic
Put(x, l, c) == IF Less(l, x.n)
                THEN Ok([x EXCEPT !.m = {e \in @ : e[1] # l} \cup (IF c = 0 THEN {} ELSE {<<l, c>>})])
                ELSE Panic
Cut(x, n) == IF Less(x.n, n) THEN None ELSE Ok([n |-> n, m |-> {e \in x.m : Less(e[1], n)}])
Up(x, g) == IF Less(x.n, g) THEN None ELSE Cut(x, Sub(x.n, g))

(* --- scripts --- *)
Ns == IF ~Emit THEN {<<q, r>> : q \in 0..(B - 1), r \in 0..(B - 1)}
      ELSE IF D = 2 THEN {<<16384, 2>>, <<32768, 3>>, <<65536, 5>>}          \* 2^30.., 2^31.., 2^32..
      ELSE {<<10922, 43693>>, <<21845, 21848>>, <<65536, 5>>}               \* 2^31/3.., 2^32/3.., 2^32..
Turns == {<<16384, 0>>, <<32768, 0>>, <<65536, 0>>, <<10922, 43690>>, <<21845, 21845>>, <<0, 32768>>, <<1, 0>>}
Around(n) ==      \* levels worth looking at
    IF ~Emit THEN {<<q, r>> : q \in 0..(B - 1), r \in 0..(B - 1)}
    ELSE {Big(0), Big(1), Big(3), Sub(n, Big(1)), Sub(n, Big(2)), Sub(n, Big(5))}
         \cup Turns \cup {Add(t, Big(1)) : t \in Turns} \cup {Sub(t, Big(1)) : t \in Turns}
Here(n) == {l \in Around(n) : l[1] >= 0 /\ l[2] >= 0}
Spots(n) == {l \in (IF Emit THEN {Big(0), Big(3), Sub(n, Big(1)), Sub(n, Big(2))} \cup Turns
                    \cup {Sub(t, Big(1)) : t \in Turns} ELSE Around(n)) : Less(l, n)}

Call(code, a, x) == <<code, a[1], a[2], x>>
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : Less(a, b))
Reads(x) == LET S == Sorted(Here(x.n) \cup {x.n} \cup {e[1] : e \in x.m})
            IN  [i \in 1..Len(S) |-> Call("get", S[i], IF Less(S[i], x.n) THEN At(x, S[i]) ELSE -1)]
                \o <<Call("depth", x.n, 0)>>

Init == \E n \in Ns : v = Zeroed(n) /\ h = <<Call("zeroed", n, 0)>> /\ ph = 0
Write == ph < 2 /\ \E l \in Spots(v.n), c \in (IF Emit THEN {ph + 1} ELSE 0..1) :
           /\ v' = Put(v, l, c).v
           /\ h' = h \o <<Call("set", l, c)>>
           /\ ph' = ph + 1
Refuse == ph = 2 /\ Emit /\ ph' = 3 /\ v' = v
          /\ h' = h \o <<Call("set", v.n, -1)>> \o Reads(v) \o <<Call("cut", Add(v.n, Big(1)), -1), Call("up", Add(v.n, Big(1)), -1)>>
Shorter == {Big(0), Big(2), Big(5), Big(70)}
Finish == ph = 3 /\ Emit /\
        \/ \E n \in Shorter : LET u == Cut(v, n).v IN
             /\ v' = u /\ h' = h \o <<Call("cut", n, 0)>> \o Reads(u)
             /\ ph' = 4
        \/ \E n \in Shorter : LET g == Sub(v.n, n)  u == Up(v, g).v IN
             /\ v' = u /\ h' = h \o <<Call("up", g, 0)>> \o Reads(u)
             /\ ph' = 4
        \/ v' = v /\ ph' = 4 /\ h' = h \o <<Call("static", <<0, 0>>, 64 \div D)>>
        \/ v' = v /\ ph' = 4 /\ h' = h \o <<Call("fixed", <<0, 0>>, 64 \div D)>>
(* for the refinement: any cut, any way up *)
Small == ph < 3 /\ ~Emit /\ \E n \in Around(v.n) :
           /\ v' \in {x.v : x \in {y \in {Cut(v, n), Up(v, n)} : y.out = "ok"}}
           /\ h' = <<>> /\ ph' = ph + 1
Printed == (Emit /\ ph' = 4) => PrintT(ToJson([op |-> "hg", d |-> D, k |-> "D", n |-> 0, far |-> 1, r |-> <<>>,
            a |-> FlattenSeq([i \in 1..Len(h') |-> <<CASE h'[i][1] = "zeroed" -> 0 [] h'[i][1] = "set" -> 1 [] h'[i][1] = "get" -> 2
                     [] h'[i][1] = "depth" -> 3 [] h'[i][1] = "cut" -> 4 [] h'[i][1] = "up" -> 5 [] h'[i][1] = "static" -> 6
                     [] h'[i][1] = "fixed" -> 7, h'[i][2], h'[i][3], h'[i][4]>>])]))
Next == (Write \/ Refuse \/ Finish \/ Small) /\ Printed
Spec == Init /\ [][Next]_vars
SView == <<v, ph>>

(* --- the sparse operators refine the design --- *)
Abs(x) == MD!Idx("D", [i \in 1..Num(x.n) |-> At(x, Big(i - 1))])
SameOut(s, m) == s.out = m.out /\ (s.out = "ok" => Abs(s.v) = m.v)
Agrees == ~Emit =>
    /\ \A e \in v.m : Less(e[1], v.n) /\ e[2] # 0
    /\ ph = 0 => MD!Ok(Abs(v)) = MD!ZeroedIdx("D", D, 0, Num(v.n))
    /\ \A l \in Around(v.n) :
         /\ LET s == Get(v, l)  m == MD!GetLevel(Abs(v), Num(l)) IN s.out = m.out /\ (s.out = "ok" => s.v = m.v)
         /\ \A c \in 0..1 : SameOut(Put(v, l, c), MD!SetLevel(Abs(v), Num(l), c))
         /\ SameOut(Cut(v, l), MD!WithDepth(Abs(v), Num(l)))
         /\ Num(l) > 0 => SameOut(Up(v, l), MD!Ancestor(Abs(v), Num(l)))
         /\ Num(Add(v.n, l)) = Num(v.n) + Num(l)
=============================================================================
