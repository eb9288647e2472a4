----------------------------- MODULE BuildTrace -----------------------------
(* Arrays built by the library from given values: each has to be the one the *)
(* specification builds, as far as layout and elements go.                   *)
EXTENDS BuildMachine, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Types == ndJsonDeserialize(IOEnv.TYPES)

Given(e) == Assert(\A i \in 1..Len(e.val) : Typed(Strip(Types[e.t].type)[2], e.val[i]), <<"the driver made an ill typed value", e.val>>)
Observed(e) ==
  /\ WF(e.raw, TRUE)                 \* the exported structures conform to the format
  /\ TypeOf(e.raw) = WantedLayout'   \* have the documented layout
  /\ Decode(e.raw) = Wanted'         \* and hold the given values
  /\ Compact(e.raw)                  \* each distinct one of them once where they are encoded
  /\ e.size = Len(val')
  /\ e.api = Wanted'                 \* as the array itself says, and its copy
  /\ e.again = Wanted'
  /\ e.src = 1                       \* a range given as an lvalue is as it was
  /\ e.leak = 0                      \* nothing is left when the array has gone
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                  /\ ev' = [op |-> "build", t |-> e.t]
                  /\ Given(e)
                  /\ Give(Types[e.t].type, e.large = 1, e.val)
                  /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
                   PrintT(<<"ACCEPTED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
