----------------------------- MODULE SimdMachine -----------------------------
(* The abstract machine a program using the crate runs on: vector registers,  *)
(* a byte-addressed memory, and public calls as transitions.  `Eff` is the    *)
(* transition function: what a call does to registers and memory, whether it  *)
(* panics, and what it returns.  The same Eff is                              *)
(*   - model checked (SimdMC.tla: all behaviours of a small instance),        *)
(*   - used to generate behaviours that the driver replays on the real crate  *)
(*     (SimdGen.tla), and                                                     *)
(*   - the judge of recorded executions (SimdTrace.tla).                      *)
(*                                                                            *)
(* A command c is a record: op, t (vector type), d / s (destination / source  *)
(* register), and operands.  State is a record [reg, mem].                    *)
EXTENDS SimdOps

NREG == 3
Res(st, r) == [st |-> st, p |-> 0, r |-> r]
Panic(st)  == [st |-> st, p |-> 1, r |-> <<>>]         \* no effect at all
SetReg(st, d, v) == [st EXCEPT !.reg[d] = v]
Splat(T, l) == [k \in 1..Size(T) |-> l[((k-1) % T.w) + 1]]
PutLane(v, w, i, l) == [k \in 1..Len(v) |-> IF k > (i-1)*w /\ k <= i*w THEN l[k - (i-1)*w] ELSE v[k]]

------------------------------------------------------------------------------
(* C09: registers.  Indices are 8-byte usize values.                          *)
InRange(T, ix) == Lt(ix, FromInt(T.n, 8))
EffReg(c, T, st) ==
  CASE c.op \in {"r_new", "r_array", "r_bits"} -> Res(SetReg(st, c.d, c.a), c.a)
    [] c.op = "r_splat"   -> Res(SetReg(st, c.d, Splat(T, c.a)), Splat(T, c.a))
    [] c.op \in {"r_default", "r_null"} -> Res(SetReg(st, c.d, Zeros(Size(T))), Zeros(Size(T)))
    [] c.op = "r_toarray" -> Res(st, st.reg[c.s])
    [] c.op \in {"r_extract", "r_extract_u"} ->
         IF InRange(T, c.i) THEN Res(st, Lane(st.reg[c.s], T.w, c.i[1] + 1)) ELSE Panic(st)
    [] c.op \in {"r_replace", "r_replace_u"} ->
         IF InRange(T, c.i)
         THEN LET v == PutLane(st.reg[c.s], T.w, c.i[1] + 1, c.a) IN Res(SetReg(st, c.d, v), v)
         ELSE Panic(st)
RegCmds == {"r_new", "r_array", "r_bits", "r_splat", "r_default", "r_null", "r_toarray",
            "r_extract", "r_extract_u", "r_replace", "r_replace_u"}

------------------------------------------------------------------------------
(* C10: slices.  The slice is the c.len elements starting c.at bytes into     *)
(* memory, whose first byte is aligned to c.al = align_of of the vector type. *)
Aligned(c) == c.at % c.al = 0
Overwrite(m, at, v) == [k \in 1..Len(m) |-> IF k > at /\ k <= at + Len(v) THEN v[k - at] ELSE m[k]]
SlicePanics(c, T) == c.len < T.n \/ (c.op \in {"m_load_a", "m_store_a"} /\ ~Aligned(c))
EffMem(c, T, st) ==
  LET at == c.at IN
  IF SlicePanics(c, T) THEN Panic(st)
  ELSE IF c.op \in {"m_load_a", "m_load_u", "m_load_au", "m_load_uu"}
  THEN LET v == SubSeq(st.mem, at + 1, at + Size(T)) IN Res(SetReg(st, c.d, v), v)
  ELSE Res([st EXCEPT !.mem = Overwrite(@, at, st.reg[c.s])], <<>>)
LoadCmds  == {"m_load_a", "m_load_u", "m_load_au", "m_load_uu"}
StoreCmds == {"m_store_a", "m_store_u", "m_store_au", "m_store_uu"}

------------------------------------------------------------------------------
(* C11: gather / scatter.  c.x[i] is the cell (0-based) lane i points to, or  *)
(* -1 for a null or dangling pointer (only where the mask is false); c.k[i]   *)
(* is the mask.                                                               *)
Cell(m, w, x) == SubSeq(m, x*w + 1, (x+1)*w)
PtrsOK(c, T) == \A i \in 1..T.n : c.k[i] = 1 => c.x[i] >= 0
RECURSIVE ScatterFrom(_, _, _, _, _)
ScatterFrom(c, T, m, v, i) ==              \* lane order: least significant first
  IF i > T.n THEN m
  ELSE ScatterFrom(c, T, IF c.k[i] = 1 THEN Overwrite(m, c.x[i] * T.w, Lane(v, T.w, i)) ELSE m, v, i+1)
EffPtr(c, T, st) ==
  IF c.op = "g_read"
  THEN LET F(i) == IF c.k[i] = 1 THEN Cell(st.mem, T.w, c.x[i]) ELSE Lane(st.reg[c.s], T.w, i)
           v == Lanes(T.n, T.w, F)
       IN  Res(SetReg(st, c.d, v), v)
  ELSE Res([st EXCEPT !.mem = ScatterFrom(c, T, @, st.reg[c.s], 1)], <<>>)
PtrCmds == {"g_read", "g_write"}

------------------------------------------------------------------------------
Eff(c, st) ==
  LET T == Types[c.t] IN
  CASE c.op \in RegCmds -> EffReg(c, T, st)
    [] c.op \in LoadCmds \cup StoreCmds -> EffMem(c, T, st)
    [] c.op \in PtrCmds -> EffPtr(c, T, st)
=============================================================================
