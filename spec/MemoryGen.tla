---- MODULE MemoryGen ----
(* Prints every transition of MemoryMachine, for the driver to execute on the code. *)
EXTENDS MemoryMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
