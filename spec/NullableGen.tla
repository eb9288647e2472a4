---- MODULE NullableGen ----
(* Prints every transition of NullableMachine, for the driver to execute on the code. *)
EXTENDS NullableMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
