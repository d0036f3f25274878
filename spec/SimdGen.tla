------------------------------- MODULE SimdGen -------------------------------
(* Behaviours of SimdMachine for the driver to replay on the real crate.      *)
(* Commands are written abstractly, in terms of lane-count independent        *)
(* classes (an index that is the first lane, the lane count, 2^32, ...), so   *)
(* one behaviour is replayed on every vector type; here it runs on a          *)
(* representative type, which also restricts the unchecked calls to states    *)
(* where they are defined.  Abstract command: <<op, d, s, p, q>>.             *)
(*   Family "reg": p index class, q value number                              *)
(*   Family "mem": p address class, q length class                            *)
(*   Family "ptr": p address pattern, q mask pattern                          *)
(*   Families "xi", "xf" (C18): programs of pure operations; registers 1..3   *)
(*   hold integer / float vectors, 4..5 mask vectors, 6 shuffle indices;      *)
(*   s, p, q are the operand registers, d = 0 keeps the result nowhere.       *)
(*   Values are not computed here: the operations are relations.              *)
EXTENDS SimdMachine, Json, TLC
CONSTANTS Family, Depth
VARIABLES h, st, o
vars == <<h, st, o>>

TN == "u16x4"
GT == Types[TN]
Regs == 1..NREG
\* index classes: valid ones first
IxIn  == 0..4
IxOut == 5..11
Index(p) == CASE p = 0 -> FromInt(0, 8)          [] p = 1 -> FromInt(1 % GT.n, 8)
              [] p = 2 -> FromInt(GT.n \div 2, 8) [] p = 3 -> FromInt(GT.n - 1, 8)
              [] p = 4 -> FromInt(2 % GT.n, 8)
              [] p = 5 -> FromInt(GT.n, 8)       [] p = 6 -> FromInt(GT.n + 1, 8)
              [] p = 7 -> FromInt(2 * GT.n, 8)
              [] p = 8 -> <<0, 0, 0, 0, 1, 0, 0, 0>>          \* 2^32
              [] p = 9 -> <<1, 0, 0, 0, 0, 0, 0, 128>>        \* 2^63 + 1
              [] p = 10 -> Ones(8)
              [] p = 11 -> <<0, 1, 0, 0, 0, 0, 0, 0>>         \* 256
Vals == 1..3
Value(q) == [k \in 1..Size(GT) |-> (37*q + 11*k) % 256]
LaneVal(q) == SubSeq(Value(q), 1, GT.w)
AtAll == 0..7            \* 0, 1: aligned; 2..5: misaligned (where the type allows it); 6: any; 7: at the end
AddrOf(p) == CASE p = 0 -> 0 [] p = 1 -> Size(GT) [] p = 2 -> GT.w [] p = 3 -> Size(GT) + GT.w
           [] p = 4 -> 2*Size(GT) - GT.w [] p = 5 -> Size(GT) \div 2
           [] p = 6 -> 3 * GT.w [] p = 7 -> 3 * Size(GT)
LenAll == 0..7           \* 6: any below the lane count, 7: any from the lane count on
LenOf(q) == CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> GT.n - 1 [] q = 3 -> GT.n [] q = 4 -> GT.n + 1 [] q = 5 -> 2 * GT.n
            [] q = 6 -> 2 [] q = 7 -> GT.n
Pats == 0..9             \* 6: permutation, 7: permutation with the ends in place, 8: stride 2, 9: at the end of memory
Pat(p) == [i \in 1..GT.n |-> CASE p = 0 -> i - 1 [] p = 1 -> GT.n - i [] p = 2 -> 1
                               [] p = 3 -> (i-1) \div 2 [] p = 4 -> (3*i) % GT.n [] p = 5 -> i + 1
                               [] p = 6 -> (i + 1) % GT.n [] p = 7 -> CASE i = 2 -> 2 [] i = 3 -> 1 [] OTHER -> i - 1
                               [] p = 8 -> 2 * (i - 1) [] p = 9 -> 2 * GT.n - i]
Msks == 0..5
Msk(q) == [i \in 1..GT.n |-> CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> IF i = 1 THEN 1 ELSE 0
                               [] q = 3 -> IF i = GT.n THEN 1 ELSE 0 [] q = 4 -> i % 2 [] q = 5 -> (i \div 2) % 2]

Many == Depth > 1
\* one destination/source choice is enough when every command starts from fresh random state
D == IF Many THEN Regs ELSE {1}
S == IF Many THEN Regs ELSE {1, 2}
Q == IF Many THEN Vals ELSE {1}
RegCmd ==
       {<<x, d, 0, 0, q>> : x \in {"r_new", "r_array", "r_splat"}, d \in D, q \in Q}
  \cup {<<x, d, 0, 0, 0>> : x \in {"r_default", "r_null"}, d \in D}
  \cup {<<"r_toarray", 0, s, 0, 0>> : s \in S}
  \cup {<<"r_extract", 0, s, p, 0>> : s \in S, p \in IxIn \cup IxOut}
  \cup {<<"r_extract_u", 0, s, p, 0>> : s \in S, p \in IxIn}
  \cup {<<"r_replace", d, s, p, q>> : d \in D, s \in S, p \in IxIn \cup IxOut, q \in Q}
  \cup {<<"r_replace_u", d, s, p, q>> : d \in D, s \in S, p \in IxIn, q \in Q}
MemCmd ==
       {<<x, d, 0, p, q>> : x \in {"m_load_a", "m_load_u"}, d \in D, p \in AtAll, q \in LenAll}
  \cup {<<x, 0, s, p, q>> : x \in {"m_store_a", "m_store_u"}, s \in D, p \in AtAll, q \in LenAll}
  \cup {<<"m_load_au", d, 0, p, q>> : d \in D, p \in {0, 1}, q \in {3, 4, 5, 7}}
  \cup {<<"m_load_uu", d, 0, p, q>> : d \in D, p \in AtAll, q \in {3, 4, 5, 7}}
  \cup {<<"m_store_au", 0, s, p, q>> : s \in D, p \in {0, 1}, q \in {3, 4, 5, 7}}
  \cup {<<"m_store_uu", 0, s, p, q>> : s \in D, p \in AtAll, q \in {3, 4, 5, 7}}
PtrCmd ==
       {<<"g_read", d, s, p, q>> : d \in D, s \in S, p \in Pats, q \in Msks}
  \cup {<<"g_write", 0, s, p, q>> : s \in D, p \in Pats, q \in Msks}
VR == 1..3
MR == 4..5
XMask ==
       {<<x, d, s, p, 0>> : x \in {"m_and", "m_or", "m_xor"}, d \in MR, s \in MR, p \in MR}
  \cup {<<"m_not", d, s, 0, 0>> : d \in MR, s \in MR}
  \cup {<<x, d, s, p, 0>> : x \in {"veq", "vne", "vlt", "vle", "vgt", "vge"}, d \in MR, s \in VR, p \in VR}
  \cup {<<"select", d, s, p, q>> : d \in VR, s \in MR, p \in VR, q \in VR}
  \cup {<<x, 0, s, 0, 0>> : x \in {"mred", "mbitmask"}, s \in MR}
  \cup {<<"eq", 0, s, p, 0>> : s \in VR, p \in VR}
  \cup {<<"shuffle1_dyn", d, s, 6, 0>> : d \in VR, s \in VR}
  \cup {<<x, d, 0, 0, 0>> : x \in {"r_array", "r_splat"}, d \in VR}      \* fresh values
XIntCmd == XMask
  \cup {<<x, d, s, p, 0>> : x \in {"add", "sub", "mul", "min", "max", "and", "or", "xor", "rotl", "rotr"},
                             d \in VR, s \in VR, p \in VR}
  \cup {<<x, d, s, 0, 0>> : x \in {"not", "neg", "swap_bytes", "count_ones", "leading_zeros", "trailing_zeros"}, d \in VR, s \in VR}
  \cup {<<x, 0, s, 0, 0>> : x \in {"wsum", "wprod", "rand", "ror", "rxor", "rmin", "rmax", "bitmask"}, s \in VR}
  \cup {<<x, 0, s, p, 0>> : x \in {"lt", "cmp"}, s \in VR, p \in VR}
XFloatCmd == XMask
  \cup {<<x, d, s, p, 0>> : x \in {"add", "sub", "mul", "div", "min", "max"}, d \in VR, s \in VR, p \in VR}
  \cup {<<x, d, s, 0, 0>> : x \in {"neg", "abs", "sqrt"}, d \in VR, s \in VR}
  \cup {<<"mul_add", d, s, p, q>> : d \in VR, s \in VR, p \in VR, q \in VR}
  \cup {<<x, d, s, 0, 0>> : x \in {"is_nan", "is_finite"}, d \in MR, s \in VR}
  \cup {<<x, 0, s, 0, 0>> : x \in {"fsum", "rmin", "rmax"}, s \in VR}
Pure == Family \in {"xi", "xf"}
Cmds == CASE Family = "xi" -> XIntCmd [] Family = "xf" -> XFloatCmd [] Family = "reg" -> RegCmd [] Family = "mem" -> MemCmd [] Family = "ptr" -> PtrCmd

Concrete(c) ==
  CASE Family = "reg" -> [op |-> c[1], t |-> TN, d |-> c[2], s |-> c[3], i |-> Index(c[4]),
                          a |-> IF c[1] \in {"r_new", "r_array"} THEN Value(c[5]) ELSE LaneVal(c[5])]
    [] Family = "mem" -> [op |-> c[1], t |-> TN, d |-> c[2], s |-> c[3], at |-> AddrOf(c[4]), len |-> LenOf(c[5]), al |-> Size(GT)]
    [] Family = "ptr" -> [op |-> c[1], t |-> TN, d |-> c[2], s |-> c[3], x |-> Pat(c[4]), k |-> Msk(c[5])]

Ops == {c[1] : c \in Cmds}

Init == /\ h = <<>> /\ o = ""
        /\ st = [reg |-> [j \in Regs |-> Value(j)], mem |-> [k \in 1..(4*Size(GT)) |-> k % 256]]
\* the operation first, then its operands, so that random behaviours use all operations alike
Choose == o = "" /\ Len(h) < Depth /\ o' \in Ops /\ UNCHANGED <<h, st>>
Step == /\ o \in Ops /\ o' = ""
        /\ \E c \in Cmds : c[1] = o /\ h' = Append(h, c) /\ st' = IF Pure THEN st ELSE Eff(Concrete(c), st).st
Finish == Len(h) = Depth /\ o = "" /\ o' = "done" /\ UNCHANGED <<h, st>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

Shape == /\ \A j \in Regs : Len(st.reg[j]) = Size(GT)
         /\ Len(st.mem) = 4*Size(GT)
Emit == o = "done" => PrintT("PROG " \o ToJson(h))
=============================================================================
