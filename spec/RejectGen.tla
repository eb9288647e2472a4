---- MODULE RejectGen ----
(* Prints every transition of RejectMachine, for the driver to execute on the code. *)
EXTENDS RejectMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
