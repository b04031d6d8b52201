--------------------------------- MODULE Heap ---------------------------------
(***************************************************************************)
(* The memory behind dynamic indices (C19).  An index of n levels owns one   *)
(* block of just enough bytes; a cell lies in one byte or, when the dimension *)
(* does not divide the byte, across two.  Bytes are "junk" until written.    *)
(* Every operation is given by the bytes it reads and writes and the blocks   *)
(* it takes and releases.  Sound: only bytes of live blocks are touched, and  *)
(* no junk is read.  Owned: the live blocks are exactly those of the          *)
(* registers, one each - nothing leaks, nothing is shared or released twice.  *)
(*                                                                         *)
(* Slip makes one operation go wrong in a way unsafe code does; TLC rejects  *)
(* each.  HeapTrace.tla checks recorded allocations of the real code.        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS D,       \* bits per cell
          BB,      \* bits per byte
          MaxN,    \* levels
          Regs,
          Slip

VARIABLES reg,     \* [Regs -> [n, blk]], blk = 0 for none
          mem,     \* [block -> [live, size, junk]]: junk = the bytes never written
          sound
vars == <<reg, mem, sound>>

Blocks == 1..(Cardinality(Regs) + 2)
NoReg == [n |-> 0, blk |-> 0]
Bytes(n) == (n * D + BB - 1) \div BB
All(n) == 0..(Bytes(n) - 1)
CellBytes(l) == (l * D) \div BB .. (l * D + D - 1) \div BB

(* reading or writing bytes B of block b in memory m *)
Touch(m, b, B) == b \in Blocks /\ m[b].live /\ B \subseteq 0..(m[b].size - 1)
Read(m, b, B) == Touch(m, b, B) /\ B \cap m[b].junk = {}
Written(m, b, B) == IF b \in Blocks THEN [m EXCEPT ![b].junk = @ \ B] ELSE m
Free(m) == CHOOSE b \in Blocks : ~m[b].live /\ \A c \in Blocks : c < b => m[c].live
Taken(m, b, size) == [m EXCEPT ![b] = [live |-> TRUE, size |-> size, junk |-> 0..(size - 1)]]
Released(m, b) == IF b = 0 THEN m ELSE [m EXCEPT ![b] = [live |-> FALSE, size |-> 0, junk |-> {}]]
MayRelease(m, b) == b = 0 \/ m[b].live

Init == /\ reg = [r \in Regs |-> NoReg]
        /\ mem = [b \in Blocks |-> [live |-> FALSE, size |-> 0, junk |-> {}]]
        /\ sound = TRUE

(* register r gets a new block for n levels, after reading bytes B of block s; *)
(* W is written.  The old block of r is released afterwards.                   *)
Make(r, n, s, B, W) ==
    LET b == Free(mem)
        m1 == Taken(mem, b, IF Slip = "short" THEN (n * D) \div BB ELSE Bytes(n))
        m2 == Written(m1, b, W)
        old == reg[r].blk
    IN  /\ mem' = IF Slip = "leak" THEN m2 ELSE Released(m2, old)
        /\ reg' = [reg EXCEPT ![r] = [n |-> n, blk |-> b]]
        /\ sound' = (sound /\ Touch(m1, b, W) /\ (s # 0 => Read(mem, s, B)) /\ MayRelease(m2, old))

Zeroed(r, n) == Make(r, n, 0, {}, All(n))
Copy(r, s) == /\ reg[s].blk # 0
              /\ IF Slip = "alias"
                 THEN /\ reg' = [reg EXCEPT ![r] = reg[s]]
                      /\ mem' = IF r = s THEN mem ELSE Released(mem, reg[r].blk)
                      /\ sound' = (sound /\ MayRelease(mem, reg[r].blk))
                 ELSE Make(r, reg[s].n, reg[s].blk, All(reg[s].n), All(reg[s].n))
Cut(r, s, n) == /\ reg[s].blk # 0 /\ n <= reg[s].n
                /\ Make(r, n, reg[s].blk, All(n), All(n))
Extend(r, s, n) == /\ reg[s].blk # 0 /\ n >= reg[s].n
                   /\ Make(r, n, reg[s].blk, All(reg[s].n), IF Slip = "junk" THEN All(reg[s].n) ELSE All(n))
Get(r, l) == /\ reg[r].blk # 0 /\ (l < reg[r].n \/ (Slip = "bound" /\ l = reg[r].n))
             /\ sound' = (sound /\ Read(mem, reg[r].blk, CellBytes(l)))
             /\ UNCHANGED <<reg, mem>>
(* a cell is read from its bytes, changed, and written back *)
Set(r, l) == /\ reg[r].blk # 0 /\ l < reg[r].n
             /\ LET B == IF Slip = "pair" THEN {CHOOSE x \in CellBytes(l) : TRUE, 1 + CHOOSE x \in CellBytes(l) : TRUE} ELSE CellBytes(l)
                IN sound' = (sound /\ Read(mem, reg[r].blk, B))
             /\ UNCHANGED <<reg, mem>>
Whole(r) == /\ reg[r].blk # 0          \* comparing, hashing, naming, converting to a word
            /\ sound' = (sound /\ Read(mem, reg[r].blk, All(reg[r].n)))
            /\ UNCHANGED <<reg, mem>>
Drop(r) == /\ reg[r].blk # 0
           /\ sound' = (sound /\ MayRelease(mem, reg[r].blk))
           /\ mem' = Released(mem, reg[r].blk)
           /\ reg' = [reg EXCEPT ![r] = IF Slip = "stale" THEN @ ELSE NoReg]

Next == \E r \in Regs :
    \/ \E n \in 0..MaxN : Zeroed(r, n)
    \/ \E s \in Regs : Copy(r, s) \/ \E n \in 0..MaxN : Cut(r, s, n) \/ Extend(r, s, n)
    \/ \E l \in 0..MaxN : Get(r, l) \/ Set(r, l)
    \/ Whole(r) \/ Drop(r)
Spec == Init /\ [][Next]_vars

Sound == sound
Owned == /\ \A r, s \in Regs : r # s /\ reg[r].blk # 0 => reg[r].blk # reg[s].blk
         /\ {b \in Blocks : mem[b].live} = {reg[r].blk : r \in Regs} \ {0}
Fits == \A r \in Regs : reg[r].blk # 0 => mem[reg[r].blk].size = Bytes(reg[r].n) /\ mem[reg[r].blk].junk = {}
=============================================================================
