------------------------------ MODULE SimdTrace ------------------------------
(* Trace validation: is the recorded execution (ndjson, one public call per   *)
(* line, in order) a behaviour of the specification?  Pure calls must satisfy *)
(* PureOK; calls on registers and memory must be steps of the machine, with   *)
(* the complete observed state (all registers, the whole memory) equal to the *)
(* machine's after every step.                                                *)
EXTENDS SimdMachine, SimdFmt, SimdMath, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* next line of the trace
          st        \* machine state [reg, mem]
vars == <<l, st>>

Machine == RegCmds \cup LoadCmds \cup StoreCmds \cup PtrCmds

TInit == l = 1 /\ st = [reg |-> <<>>, mem |-> <<>>]

\* a session starts: registers and memory as the driver set them up
Begin(ev) == ev.op = "begin" /\ st' = [reg |-> ev.g, mem |-> ev.m]

\* one machine step; the call's outcome and the observed state must match
MachineStep(ev) ==
  /\ ev.op \in Machine
  /\ LET e == Eff(ev, st) IN
     /\ ev.p = e.p /\ ev.r = e.r
     /\ ev.g = e.st.reg /\ ev.m = e.st.mem
     /\ st' = e.st

(* C18: a pure operation on registers.  Its operands are the machine's        *)
(* registers (ev.s: their numbers), its result goes to register ev.d.         *)
Operand(ev, k) == IF Len(ev.s) >= k THEN st.reg[ev.s[k]] ELSE <<>>
RegisterOp(ev) ==
  /\ ev.op = "x"
  /\ PureOK([op |-> ev.o, t |-> ev.t, u |-> ev.u, f |-> "vv", r |-> ev.r, p |-> ev.p,
             a |-> Operand(ev, 1), b |-> Operand(ev, 2), c |-> Operand(ev, 3)]) = TRUE
  /\ st' = IF ev.d = 0 THEN st ELSE [st EXCEPT !.reg[ev.d] = ev.r]
  /\ ev.g = st'.reg

Pure(ev) ==
  /\ ev.op \notin Machine \cup {"begin", "x"}
  \* "= TRUE": evaluated as one predicate, not split into one action per disjunct
  /\ (IF ev.op \in FmtOps THEN FmtOK(ev)
      ELSE IF ev.op \in MathOps THEN MathOK(ev)
      ELSE PureOK(ev)) = TRUE
  /\ UNCHANGED st

TNext == /\ l <= Len(Trace)
         /\ LET ev == Trace[l] IN Begin(ev) \/ MachineStep(ev) \/ RegisterOp(ev) \/ Pure(ev)
         /\ l' = l + 1

TraceSpec == TInit /\ [][TNext]_vars

Accepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace)
  THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
