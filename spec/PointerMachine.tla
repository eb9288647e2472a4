--------------------------- MODULE PointerMachine ---------------------------
(* Smart pointers that own what they point to.                               *)
(* Names 1, 2: value_ptr.  3, 4: cloning_ptr to a base class.                *)
(* 5: cloning_ptr to the derived class.  6: a plain pointer, given up by     *)
(* release().  A pointee is <<kind, content>>, its kind being what it was    *)
(* made as (0 value, 1 base, 2 derived); <<>> is null.  Every pointee has    *)
(* exactly one owner, so the number of live pointees is that of owners.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals
VARIABLES p, ev
vars == <<p, ev>>
Null == <<>>
V == {1, 2}
C == {3, 4}
D == {5}
Raw == 6
Names == 1..5
Kinds(n) == IF n \in V THEN {0} ELSE IF n \in D THEN {2} ELSE {1, 2}
\* n may take what m points to
Fits(n, m) == (n \in V /\ m \in V) \/ (n \in C /\ m \in C \cup D) \/ (n \in D /\ m \in D)

Init == p = [n \in 1..6 |-> Null] /\ ev = [op |-> "load", x |-> <<>>]
Ev(op, x) == ev' = [op |-> op, x |-> x]
Put(n, o) == p' = [p EXCEPT ![n] = o]

\* the pointer is destroyed and constructed anew
NewNull(n)     == n \in Names /\ Put(n, Null) /\ Ev("newNull", <<n>>)
NewVal(n, k, v) == n \in Names /\ k \in Kinds(n) /\ Put(n, <<k, v>>) /\ Ev("newVal", <<n, k, v>>)
NewCopy(n, m)  == n # m /\ Fits(n, m) /\ Put(n, p[m]) /\ Ev("newCopy", <<n, m>>)
NewMove(n, m)  == n # m /\ Fits(n, m) /\ p' = [p EXCEPT ![n] = p[m], ![m] = Null] /\ Ev("newMove", <<n, m>>)
Assign(n, m)   == Fits(n, m) /\ Put(n, p[m]) /\ Ev("assign", <<n, m>>)
MoveTo(n, m)   == /\ Fits(n, m)
                  /\ p' = IF n = m THEN p ELSE [p EXCEPT ![n] = p[m], ![m] = Null]
                  /\ Ev("move", <<n, m>>)
NullAsg(n)     == n \in Names /\ Put(n, Null) /\ Ev("nullAsg", <<n>>)
Reset(n)       == n \in Names /\ Put(n, Null) /\ Ev("reset", <<n>>)
ResetTo(n, k, v) == n \in C \cup D /\ k \in Kinds(n) /\ Put(n, <<k, v>>) /\ Ev("resetTo", <<n, k, v>>)
Swap(n, m)     == /\ n # m /\ Fits(n, m) /\ Fits(m, n) /\ p' = [p EXCEPT ![n] = p[m], ![m] = p[n]] /\ Ev("swap", <<n, m>>)
SetTo(n, v)    == n \in Names /\ p[n] # Null /\ Put(n, <<p[n][1], v>>) /\ Ev("set", <<n, v>>)
Release(n)     == /\ n \in C \cup D /\ p[Raw] = Null
                  /\ p' = [p EXCEPT ![Raw] = p[n], ![n] = Null] /\ Ev("release", <<n>>)
Adopt(n)       == /\ n \in C /\ p' = [p EXCEPT ![n] = p[Raw], ![Raw] = Null] /\ Ev("adopt", <<n>>)

Next ==
  \/ \E n \in Names : NewNull(n) \/ NullAsg(n) \/ Reset(n) \/ Release(n) \/ Adopt(n)
  \/ \E n \in Names, m \in Names : NewCopy(n, m) \/ NewMove(n, m) \/ Assign(n, m) \/ MoveTo(n, m) \/ Swap(n, m)
  \/ \E n \in Names, k \in 0..2, v \in Vals : NewVal(n, k, v) \/ ResetTo(n, k, v)
  \/ \E n \in Names, v \in Vals : SetTo(n, v)
Spec == Init /\ [][Next]_vars
View == p

Owners == {n \in 1..6 : p[n] # Null}
B(b) == IF b THEN 1 ELSE 0
\* has a pointee, its kind and content
Seen(n) == IF p[n] = Null THEN <<0, -1, -1>> ELSE <<1, p[n][1], p[n][2]>>
Obs == [look |-> [n \in 1..6 |-> Seen(n)],
        live |-> Cardinality(Owners),
        \* pointers compare as their pointees' addresses do, and no two pointees share one
        eq   |-> [i \in 1..3 |-> [j \in 1..3 |-> B(i = j \/ (p[i + 2] = Null /\ p[j + 2] = Null))]],
        nul  |-> [i \in 1..5 |-> B(p[i] = Null)]]
Matches(o, e) == o = e

Load(x) == p' = [n \in 1..6 |-> IF x[2 * n - 1] < 0 THEN Null ELSE <<x[2 * n - 1], x[2 * n]>>] /\ Ev("load", x)
Dump == [i \in 1..12 |-> LET n == (i + 1) \div 2 IN IF p[n] = Null THEN -1 ELSE p[n][2 - (i % 2)]]

TypeOK == /\ \A n \in Names : p[n] # Null => p[n][1] \in Kinds(n)
          /\ p[Raw] # Null => p[Raw][1] \in {1, 2}
\* pointees appear only by construction and copies, and vanish only when replaced or given up
Conserved == [][/\ ev'.op \in {"move", "swap", "release", "newMove", "adopt"} => Cardinality(Owners') <= Cardinality(Owners)
                /\ ev'.op \in {"swap", "release"} => Cardinality(Owners') = Cardinality(Owners)]_vars

Step(op, x) ==
  \/ op = "load" /\ Load(x)
  \/ op = "newNull" /\ NewNull(x[1])
  \/ op = "newVal" /\ NewVal(x[1], x[2], x[3])
  \/ op = "newCopy" /\ NewCopy(x[1], x[2])
  \/ op = "newMove" /\ NewMove(x[1], x[2])
  \/ op = "assign" /\ Assign(x[1], x[2])
  \/ op = "move" /\ MoveTo(x[1], x[2])
  \/ op = "nullAsg" /\ NullAsg(x[1])
  \/ op = "reset" /\ Reset(x[1])
  \/ op = "resetTo" /\ ResetTo(x[1], x[2], x[3])
  \/ op = "swap" /\ Swap(x[1], x[2])
  \/ op = "set" /\ SetTo(x[1], x[2])
  \/ op = "release" /\ Release(x[1])
  \/ op = "adopt" /\ Adopt(x[1])
=============================================================================
