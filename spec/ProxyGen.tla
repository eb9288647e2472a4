---- MODULE ProxyGen ----
(* Prints every transition of ProxyMachine, for the driver to execute on the code. *)
EXTENDS ProxyMachine, Json
CONSTANT Emit
EmitStep == Emit => PrintT(ToJson([pre |-> Dump, op |-> ev'.op, x |-> ev'.x]))
====
