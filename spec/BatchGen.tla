---- MODULE BatchGen ----
(* Prints every transition of BatchMachine, for the driver to execute on the code. *)
EXTENDS BatchMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
