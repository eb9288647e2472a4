---- MODULE PointerGen ----
(* Prints every transition of PointerMachine, for the driver to execute on the code. *)
EXTENDS PointerMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
