-------------------------------- MODULE SimdMC -------------------------------
(* Exhaustive check of the machine itself: every reachable state of a small   *)
(* instance (a 2-lane type, two registers, a few memory cells, few values),   *)
(* and in every one of them every command with every operand, satisfies the   *)
(* laws the properties C09, C10 and C11 state.                                *)
EXTENDS SimdMachine, IOUtils
CONSTANT Family
VARIABLE st
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"

TN == "u8x2"
T == Types[TN]
N == T.n
Regs == 1..2
Bytes2 == IF Thorough /\ Family = "reg" THEN {0, 1, 2} ELSE {0, 1}
Vecs == [1..2 -> Bytes2]
MemLen == IF Thorough THEN 6 ELSE 5
Ix == {FromInt(k, 8) : k \in 0..3} \cup {<<0,0,0,0,1,0,0,0>>, <<1,0,0,0,0,0,0,128>>, Ones(8)}

RegC == {[op |-> o, t |-> TN, d |-> d, s |-> 1, i |-> Zeros(8), a |-> v] : o \in {"r_new", "r_array"}, d \in Regs, v \in Vecs}
   \cup {[op |-> "r_splat", t |-> TN, d |-> d, s |-> 1, i |-> Zeros(8), a |-> <<x>>] : d \in Regs, x \in Bytes2}
   \cup {[op |-> "r_default", t |-> TN, d |-> d, s |-> 1, i |-> Zeros(8), a |-> <<>>] : d \in Regs}
   \cup {[op |-> "r_toarray", t |-> TN, d |-> 0, s |-> s, i |-> Zeros(8), a |-> <<>>] : s \in Regs}
   \cup {[op |-> "r_extract", t |-> TN, d |-> 0, s |-> s, i |-> i, a |-> <<>>] : s \in Regs, i \in Ix}
   \cup {[op |-> "r_replace", t |-> TN, d |-> d, s |-> s, i |-> i, a |-> <<x>>] : d \in Regs, s \in Regs, i \in Ix, x \in Bytes2}
MemC == {[op |-> o, t |-> TN, d |-> d, s |-> d, at |-> at, len |-> len, al |-> 2] :
          o \in {"m_load_a", "m_load_u", "m_store_a", "m_store_u"}, d \in Regs, at \in 0..(MemLen-2), len \in 0..3}
PtrC == {[op |-> o, t |-> TN, d |-> d, s |-> d, x |-> x, k |-> k] :
          o \in {"g_read", "g_write"}, d \in Regs,
          x \in [1..2 -> -1..(MemLen-1)], k \in [1..2 -> {0, 1}]}
Fits(c) == c.op \in LoadCmds \cup StoreCmds => c.at + c.len <= MemLen
Cmds == CASE Family = "reg" -> RegC
          [] Family = "mem" -> {c \in MemC : Fits(c)}
          [] Family = "ptr" -> {c \in PtrC : PtrsOK(c, T)}
MemVals == IF Family = "reg" THEN {[k \in 1..MemLen |-> 0]} ELSE [1..MemLen -> {0, 1}]

Init == st \in [reg : [Regs -> Vecs], mem : MemVals]
Next == \E c \in Cmds : st' = Eff(c, st).st
Spec == Init /\ [][Next]_st

LaneOf(v, i) == Lane(v, T.w, i)
\* a panic changes nothing; only the destination register and only the written memory changes
Frame(c, e) ==
  /\ e.p = 1 => e.st = st
  /\ \A j \in Regs : e.st.reg[j] # st.reg[j] => c.op \notin StoreCmds \cup {"g_write"} /\ j = c.d
  /\ e.st.mem # st.mem => c.op \in StoreCmds \cup {"g_write"}
RegLaws(c, e) ==
  /\ (e.p = 1) <=> (c.op \in {"r_extract", "r_replace"} /\ \A i \in 0..(N-1) : c.i # FromInt(i, 8))
  /\ c.op = "r_replace" /\ e.p = 0 =>
       /\ \A i \in 1..N : LaneOf(e.r, i) = IF FromInt(i-1, 8) = c.i THEN c.a ELSE LaneOf(st.reg[c.s], i)
       \* reading the lane back gives the new value
       /\ Eff([c EXCEPT !.op = "r_extract", !.s = c.d], e.st).r = c.a
  /\ c.op = "r_extract" /\ e.p = 0 => \E i \in 1..N : c.i = FromInt(i-1, 8) /\ e.r = LaneOf(Eff([c EXCEPT !.op = "r_toarray"], st).r, i)
  /\ c.op = "r_splat" => \A i \in 1..N : LaneOf(e.r, i) = c.a
  /\ c.op \in {"r_new", "r_array"} => Eff([c EXCEPT !.op = "r_toarray", !.s = c.d], e.st).r = c.a
MemLaws(c, e) ==
  /\ (e.p = 1) <=> (c.len < N \/ (c.op \in {"m_load_a", "m_store_a"} /\ c.at % c.al # 0))
  /\ c.op \in LoadCmds /\ e.p = 0 => \A i \in 1..N : LaneOf(e.r, i) = <<st.mem[c.at + i]>>
  /\ c.op \in StoreCmds /\ e.p = 0 =>
       /\ \A k \in 1..MemLen : e.st.mem[k] = IF k > c.at /\ k <= c.at + N THEN st.reg[c.s][k - c.at] ELSE st.mem[k]
       \* what was stored is loaded back, by either form
       /\ Eff([c EXCEPT !.op = "m_load_u"], e.st).r = st.reg[c.s]
  \* the aligned and the unaligned form agree where both are defined
  /\ e.p = 0 => Eff([c EXCEPT !.op = CASE c.op = "m_load_a" -> "m_load_u" [] c.op = "m_store_a" -> "m_store_u" [] OTHER -> c.op], st) = e
PtrLaws(c, e) ==
  /\ e.p = 0
  /\ c.op = "g_read" => \A i \in 1..N : LaneOf(e.r, i) = IF c.k[i] = 1 THEN <<st.mem[c.x[i] + 1]>> ELSE LaneOf(st.reg[c.s], i)
  /\ c.op = "g_write" =>
       LET last(m) == LET ws == {i \in 1..N : c.k[i] = 1 /\ c.x[i] = m} IN IF ws = {} THEN 0 ELSE CHOOSE i \in ws : \A j \in ws : j <= i
       IN  \A m \in 0..(MemLen-1) : e.st.mem[m+1] = IF last(m) = 0 THEN st.mem[m+1] ELSE st.reg[c.s][last(m)]
  \* a false lane's pointer is irrelevant
  /\ \A i \in 1..N : c.k[i] = 0 => Eff([c EXCEPT !.x[i] = -1], st) = e
Laws == \A c \in Cmds : LET e == Eff(c, st) IN
  /\ Frame(c, e)
  /\ Family = "reg" => RegLaws(c, e)
  /\ Family = "mem" => MemLaws(c, e)
  /\ Family = "ptr" => PtrLaws(c, e)
=============================================================================
