---- MODULE PointerTrace ----
(* Accepts a recorded trace exactly when every step is one of PointerMachine and shows what it says. *)
EXTENDS PointerMachine, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN /\ Step(e.op, e.x)
                                    /\ IF IOEnv.CHECK = "steps" THEN TRUE ELSE Matches(Obs', e.obs)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
                   PrintT(<<"ACCEPTED", d, Len(Trace)>>) /\ d = Len(Trace)
====
