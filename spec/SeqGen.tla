------------------------------- MODULE SeqGen -------------------------------
(* Exhaustive exploration of SeqMachine; every transition is printed, so     *)
(* that the driver can replay it against the implementation.                 *)
EXTENDS SeqMachine, Json
CONSTANT Emit
View == <<a, b>>
EmitStep == Emit => PrintT(ToJson([pa |-> a, pb |-> b, op |-> ev'.op, x |-> ev'.x, t |-> ev'.t,
                                   a |-> a', b |-> b', r |-> ret',
                                   xa |-> (ev'.op # "set" \/ ((ev'.x[2] = Null) <=> (At(a, ev'.x[1]) = Null)))]))
=============================================================================
