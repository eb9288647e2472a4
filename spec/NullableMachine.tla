--------------------------- MODULE NullableMachine ---------------------------
(* Nullables as optional values.                                             *)
(*                                                                           *)
(* Locations 1 and 2 are owning nullables; locations 3 and 4 are pairs of a  *)
(* value and a flag somewhere in memory.  Names 1..5 designate nullables:    *)
(* 1 and 2 own, 3 and 5 refer to location 3, 4 refers to location 4.         *)
(* Location 6 is a nullable_variant of two alternatives, see the end.        *)
(*                                                                           *)
(* h tells whether there is a value, v is the value last stored, or Unknown: *)
(* after a null has been copied, nothing is said about what hides behind it. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals
VARIABLES c, ev
vars == <<c, ev>>

Unknown == -1
Names == 1..5
Own == 1..2
Ref == 3..5
Loc(n) == IF n = 5 THEN 3 ELSE n
Nul == [v |-> Unknown, h |-> 0]
Val(v) == [v |-> v, h |-> 1]

Init == c = [l \in 1..4 |-> Nul] @@ (5 :> [Nul EXCEPT !.v = 0]) /\ ev = [op |-> "load", x |-> <<>>]

At(n) == c[Loc(n)]
\* what a copy of location s holds
CopyOf(s) == IF c[s].h = 1 THEN c[s] ELSE Nul
Put(n, r) == c' = [c EXCEPT ![Loc(n)] = r]
SameKind(n, m) == (n \in Own) = (m \in Own)

Ev(op, x) == ev' = [op |-> op, x |-> x]

\* construction in the place of an owning nullable
New(n)          == n \in Own /\ Put(n, Nul) /\ Ev("new", <<n>>)
NewNull(n)      == n \in Own /\ Put(n, Nul) /\ Ev("newNull", <<n>>)
NewVal(n, v)    == n \in Own /\ Put(n, Val(v)) /\ Ev("newVal", <<n, v>>)
NewBoth(n, v, h) == n \in Own /\ Put(n, [v |-> v, h |-> h]) /\ Ev("newBoth", <<n, v, h>>)
NewCopy(n, m)   == n \in Own /\ n # m /\ Put(n, CopyOf(Loc(m))) /\ Ev("newCopy", <<n, m>>)
\* moved from: an owning one is given nullval again, what a referring one refers to stays
Moved(n, m)     == c' = [c EXCEPT ![Loc(n)] = CopyOf(Loc(m)), ![Loc(m)] = IF m \in Own THEN Nul ELSE @]
NewMove(n, m)   == n \in Own /\ n # m /\ Moved(n, m) /\ Ev("newMove", <<n, m>>)

SetNull(n)      == Put(n, [At(n) EXCEPT !.h = 0]) /\ Ev("setNull", <<n>>)
SetVal(n, v)    == Put(n, Val(v)) /\ Ev("setVal", <<n, v>>)
Assign(n, m)    == /\ IF Loc(n) = Loc(m) THEN c' = c ELSE Put(n, CopyOf(Loc(m)))
                   /\ Ev("assign", <<n, m>>)
MoveTo(n, m)    == /\ Loc(n) # Loc(m) /\ Moved(n, m) /\ Ev("move", <<n, m>>)
Reset(n)        == Put(n, [At(n) EXCEPT !.h = 0]) /\ Ev("reset", <<n>>)
\* swapping what two names designate
Swap(n, m)      == /\ SameKind(n, m) /\ c' = [c EXCEPT ![Loc(n)] = c[Loc(m)], ![Loc(m)] = c[Loc(n)]]
                   /\ Ev("swap", <<n, m>>)
\* through the references the nullable hands out
PokeVal(n, v)   == Put(n, [At(n) EXCEPT !.v = v]) /\ Ev("poke", <<n, v>>)
PokeFlag(n, h)  == /\ h = 1 => At(n).v # Unknown
                   /\ Put(n, [At(n) EXCEPT !.h = h]) /\ Ev("pokeFlag", <<n, h>>)
\* the objects referred to change by themselves
Outside(l, v, h) == l \in 3..4 /\ Put(l, [v |-> v, h |-> h]) /\ Ev("outside", <<l, v, h>>)

\* the nullable_variant holds alternative a (0 or 1)
Var(a, v, h)    == c' = [c EXCEPT ![5] = [v |-> v, h |-> h]] /\ Ev("var", <<a, v, h>>)

Next ==
  \/ \E n \in Own : New(n) \/ NewNull(n) \/ \E v \in Vals : NewVal(n, v) \/ \E h \in 0..1 : NewBoth(n, v, h)
  \/ \E n \in Own, m \in Names : NewCopy(n, m) \/ NewMove(n, m)
  \/ \E n \in Names : SetNull(n) \/ Reset(n) \/ \E v \in Vals : SetVal(n, v) \/ PokeVal(n, v)
  \/ \E n \in Names, h \in 0..1 : PokeFlag(n, h)
  \/ \E n \in Names, m \in Names : Assign(n, m) \/ MoveTo(n, m) \/ Swap(n, m)
  \/ \E l \in 3..4, v \in Vals, h \in 0..1 : Outside(l, v, h)
  \/ \E a \in 0..1, v \in Vals, h \in 0..1 : Var(a, v, h)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What has to be observed.                                                  *)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* null equals null and is below every value
Cmp(r, s) == IF r.h = 1 /\ s.h = 1 THEN Sign(r.v - s.v) ELSE Sign(r.h - s.h)
\* == != < <= > >= and <=>, as one number
B(b) == IF b THEN 1 ELSE 0
Code(k) == B(k = 0) + 2 * B(k # 0) + 4 * B(k < 0) + 8 * B(k <= 0) + 16 * B(k > 0) + 32 * B(k >= 0) + 64 * (k + 1)
Codes == [k \in -1..1 |-> Code(k)]
Throws == -9
Other == 2      \* the value given to value_or
Seen(r) == <<r.h, r.h, IF r.v = Unknown THEN -7 ELSE r.v, IF r.h = 1 THEN r.v ELSE Throws, IF r.h = 1 THEN r.v ELSE Other>>
Obs == [look |-> [n \in 1..5 |-> Seen(At(n))],
        cmp  |-> [n \in 1..5 |-> [m \in 1..5 |-> Codes[Cmp(At(n), At(m))]]],
        nul  |-> [n \in 1..5 |-> Codes[Cmp(At(n), Nul)]],
        val  |-> [n \in 1..5 |-> [v \in 1..3 |-> Codes[Cmp(At(n), Val(v - 1))]]],
        mem  |-> [l \in 1..2 |-> <<c[2 + l].v, c[2 + l].h>>],
        var  |-> <<c[5].h, c[5].h>>]
\* -7 stands for a value nothing is said about
Matches(o, e) ==
  /\ \A n \in 1..5, k \in 1..5 : o.look[n][k] = -7 \/ o.look[n][k] = e.look[n][k]
  /\ o.cmp = e.cmp /\ o.nul = e.nul /\ o.val = e.val /\ o.var = e.var
  /\ \A l \in 1..2 : (o.mem[l][1] = Unknown \/ o.mem[l][1] = e.mem[l][1]) /\ o.mem[l][2] = e.mem[l][2]

Load(x) == c' = [l \in 1..5 |-> [v |-> x[2 * l - 1], h |-> x[2 * l]]] /\ Ev("load", x)
Dump == <<c[1].v, c[1].h, c[2].v, c[2].h, c[3].v, c[3].h, c[4].v, c[4].h, c[5].v, c[5].h>>

----------------------------------------------------------------------------
(* Properties of the design.                                                 *)
TypeOK == \A l \in 1..5 : c[l].h \in 0..1 /\ (c[l].h = 1 => c[l].v \in Vals \cup {0})
TotalOrder == \A n \in Names, m \in Names, k \in Names :
                /\ Cmp(At(n), At(m)) = 0 - Cmp(At(m), At(n))
                /\ Cmp(At(n), At(n)) = 0
                /\ (Cmp(At(n), At(m)) <= 0 /\ Cmp(At(m), At(k)) <= 0) => Cmp(At(n), At(k)) <= 0
\* assigning to one nullable changes no other one, aliases apart
OthersKeep == [][ev'.op \in {"new", "newNull", "newVal", "newBoth", "newCopy", "setNull", "setVal", "assign", "reset", "poke", "pokeFlag", "outside"}
                 => \A l \in 1..5 : l # Loc(ev'.x[1]) => c'[l] = c[l]]_vars

Step(op, x) ==
  \/ op = "load" /\ Load(x)
  \/ op = "new" /\ New(x[1])
  \/ op = "newNull" /\ NewNull(x[1])
  \/ op = "newVal" /\ NewVal(x[1], x[2])
  \/ op = "newBoth" /\ NewBoth(x[1], x[2], x[3])
  \/ op = "newCopy" /\ NewCopy(x[1], x[2])
  \/ op = "newMove" /\ NewMove(x[1], x[2])
  \/ op = "setNull" /\ SetNull(x[1])
  \/ op = "setVal" /\ SetVal(x[1], x[2])
  \/ op = "assign" /\ Assign(x[1], x[2])
  \/ op = "move" /\ MoveTo(x[1], x[2])
  \/ op = "reset" /\ Reset(x[1])
  \/ op = "swap" /\ Swap(x[1], x[2])
  \/ op = "poke" /\ PokeVal(x[1], x[2])
  \/ op = "pokeFlag" /\ PokeFlag(x[1], x[2])
  \/ op = "outside" /\ Outside(x[1], x[2], x[3])
  \/ op = "var" /\ Var(x[1], x[2], x[3])
\* the variant does not interact with the others
View == <<c[1], c[2], c[3], c[4]>>
=============================================================================
