---------------------------- MODULE ArrayMachine ----------------------------
(* Arrays, what they hold, and who owns the C structures behind them.        *)
(*                                                                           *)
(* Slots hold arrays.  An import hands a pair of C structures to the library *)
(* in one of six modes:  "oo" both given away, "ol" the array given away and *)
(* the schema lent, "ll" both lent; "so" and "sl" the same as "oo" and "ol"  *)
(* with an array the library itself made, "os" both given away and a schema  *)
(* the library itself made.  What the library made is not tracked: no memory *)
(* may be left over is all there is to say.  Copies and owning slices are    *)
(* structures made by the library, and so is an array made of other ones     *)
(* (its children, which it takes).  A view slice refers to the memory of the *)
(* slot it was taken from (dep) and owns nothing.  So does an untyped array   *)
(* made of a pointer to a typed one (by), and so do its copies; those of an  *)
(* untyped array made of a shared pointer (shared) all own the same.         *)
EXTENDS ArrowFormat
CONSTANT Slots
VARIABLES
  slot,   \* Slots -> what the array holds
  held,   \* structures extracted from the library, not yet given back
  imps,   \* imports: mode and how often array and schema have been released
  ev

vars == <<slot, held, imps, ev>>

Dead == [live |-> FALSE, val |-> <<>>, ty |-> <<>>, imp |-> {}, dep |-> {}, view |-> FALSE, exact |-> TRUE,
         by |-> FALSE, shared |-> FALSE]
Fresh(v, t, x) == [Dead EXCEPT !.live = TRUE, !.val = v, !.ty = t, !.exact = x]

Init == slot = [s \in Slots |-> Dead] /\ held = Dead /\ imps = <<>> /\ ev = <<"init">>

Live(s) == s \in Slots /\ slot[s].live
Free(s) == s \in Slots /\ ~slot[s].live
NoDep(s) == \A t \in Slots : slot[t].live => s \notin slot[t].dep

GivenArray(m) == m \in {"oo", "ol", "os"}     \* arrays of a producer that were given away
GivenSchema(m) == m \in {"oo", "so"}          \* schemas of a producer that were given away
Owned(m) == m \in {"oo", "so", "os"}          \* the library owns the whole
OwnMade(m) == m \in {"so", "sl"}              \* the library made the array
\* what nobody holds any more is released; v and h are what is there from now on
Has(v, h, i) == \/ h.live /\ i \in h.imp
                \/ \E s \in Slots : v[s].live /\ i \in v[s].imp
Settled(v, h) ==
  [i \in 1..Len(imps) |->
     IF ~Has(slot, held, i) \/ Has(v, h, i) THEN imps[i]
     ELSE [imps[i] EXCEPT !.ra = @ + (IF GivenArray(imps[i].m) THEN 1 ELSE 0),
                          !.rs = @ + (IF GivenSchema(imps[i].m) THEN 1 ELSE 0)]]

Import(s, r, m) ==
  /\ Free(s)
  /\ slot' = [slot EXCEPT ![s] = [Fresh(Decode(r), TypeOf(r), TRUE) EXCEPT !.imp = {Len(imps) + 1}]]
  /\ imps' = Append(imps, [m |-> m, ra |-> 0, rs |-> 0])
  /\ UNCHANGED held

\* What the library cannot read is refused: what was given away is released,
\* what was lent is not, and nothing else happens.
RefuseImport(s, m) ==
  /\ Free(s)
  /\ imps' = Append(imps, [m |-> m, ra |-> IF GivenArray(m) THEN 1 ELSE 0, rs |-> IF GivenSchema(m) THEN 1 ELSE 0])
  /\ UNCHANGED <<slot, held>>

\* an array made by the library itself, by a constructor or by the builder
Make(s, v, t) == /\ Free(s) /\ slot' = [slot EXCEPT ![s] = Fresh(v, t, TRUE)] /\ UNCHANGED <<held, imps>>

\* the documented empty array, of no type
Nothing == <<"", <<>>, <<>>, "nothing">>
Copied(c) == IF c.by \/ c.shared THEN c ELSE Fresh(c.val, c.ty, c.exact)
Copy(s, d) == /\ Live(s) /\ Free(d)
              /\ slot' = [slot EXCEPT ![d] = Copied(slot[s])]
              /\ UNCHANGED <<held, imps>>
Assign(s, d) == /\ Live(s) /\ Live(d) /\ s # d /\ NoDep(d)
                /\ d \notin slot[s].dep
                /\ slot' = [slot EXCEPT ![d] = Copied(slot[s])]
                /\ imps' = Settled(slot', held)
                /\ UNCHANGED held
\* nothing happens, or the array is replaced by a copy of itself
SelfAssign(s) == /\ Live(s) /\ NoDep(s) /\ UNCHANGED held
                 /\ \/ UNCHANGED <<slot, imps>>
                    \/ /\ slot' = [slot EXCEPT ![s] = Copied(slot[s])]
                       /\ imps' = Settled(slot', held)

Move(s, d) == /\ Live(s) /\ Free(d) /\ NoDep(s)
              /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = Dead]
              /\ UNCHANGED <<held, imps>>
\* the moved-from array is destroyed in the same step
MoveAssign(s, d) == /\ Live(s) /\ Live(d) /\ s # d /\ NoDep(s) /\ NoDep(d) /\ d \notin slot[s].dep
                    /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = Dead]
                    /\ imps' = Settled(slot', held)
                    /\ UNCHANGED held
Swap(s, d) == /\ Live(s) /\ Live(d) /\ s # d /\ NoDep(s) /\ NoDep(d)
              /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = slot[d]]
              /\ UNCHANGED <<held, imps>>
\* the typed array is wrapped into an untyped one, in place
Wrap(s) == Live(s) /\ NoDep(s) /\ UNCHANGED <<slot, held, imps>>
Share(s) == /\ Live(s) /\ NoDep(s)
            /\ slot' = [slot EXCEPT ![s].shared = TRUE]
            /\ UNCHANGED <<held, imps>>
\* an untyped array that refers to a typed one
Refer(s, d) == /\ Live(s) /\ Free(d)
               /\ slot' = [slot EXCEPT ![d] = [Fresh(slot[s].val, slot[s].ty, slot[s].exact)
                                                 EXCEPT !.dep = {s} \cup slot[s].dep, !.view = TRUE, !.by = TRUE]]
               /\ UNCHANGED <<held, imps>>
None(d) == Make(d, <<>>, Nothing)

Cut(v, a, b) == SubSeq(v, a + 1, b)
SliceOf(s, d, a, b) ==
  /\ Live(s) /\ Free(d) /\ a <= b /\ b <= Len(slot[s].val)
  /\ slot' = [slot EXCEPT ![d] = Fresh(Cut(slot[s].val, a, b), slot[s].ty, TRUE)]
  /\ UNCHANGED <<held, imps>>
ViewOf(s, d, a, b) ==
  /\ Live(s) /\ Free(d) /\ a <= b /\ b <= Len(slot[s].val)
  /\ slot' = [slot EXCEPT ![d] = [Fresh(Cut(slot[s].val, a, b), slot[s].ty, TRUE)
                                    EXCEPT !.dep = {s} \cup slot[s].dep, !.view = TRUE]]
  /\ UNCHANGED <<held, imps>>

Drop(s) == /\ Live(s) /\ NoDep(s)
           /\ slot' = [slot EXCEPT ![s] = Dead]
           /\ imps' = Settled(slot', held)
           /\ UNCHANGED held

\* readers: exporting, comparing, walking
Read(s) == Live(s) /\ UNCHANGED <<slot, held, imps>>

\* Both structures leave the library, which forgets them; the array is
\* destroyed.  They are then given back, or released by whoever got them.
Extractable(s) == /\ ~slot[s].view /\ ~slot[s].shared
                  /\ \A i \in slot[s].imp : Owned(imps[i].m)
Extract(s) == /\ Live(s) /\ NoDep(s) /\ ~held.live /\ Extractable(s)
              /\ held' = slot[s]
              /\ slot' = [slot EXCEPT ![s] = Dead]
              /\ UNCHANGED imps
GiveBack(d) == /\ held.live /\ Free(d)
               /\ slot' = [slot EXCEPT ![d] = held]
               /\ held' = Dead
               /\ UNCHANGED imps
ReleaseHeld == /\ held.live /\ held' = Dead /\ imps' = Settled(slot, held') /\ UNCHANGED slot
\* An array made of others, which are its children (or its dictionary) from
\* then on; r describes it without them.  What may not be taken is refused.
Takable(srcs) == /\ \A i \in 1..Len(srcs) : Live(srcs[i]) /\ NoDep(srcs[i]) /\ ~slot[srcs[i]].view
                 /\ \A i, j \in 1..Len(srcs) : srcs[i] = srcs[j] => i = j
Vals(srcs) == [i \in 1..Len(srcs) |-> slot[srcs[i]].val]
Types(srcs) == [i \in 1..Len(srcs) |-> slot[srcs[i]].ty]
Nest(d, r, srcs) ==
  /\ Free(d) /\ Takable(srcs)
  /\ \A i \in 1..Len(srcs) : Extractable(srcs[i])
  /\ slot' = [s \in Slots |->
       IF s = d THEN [Fresh(Compose(r, Vals(srcs)), TypeOfParts(r, Types(srcs)), \A i \in 1..Len(srcs) : slot[srcs[i]].exact)
                      EXCEPT !.imp = UNION {slot[srcs[i]].imp : i \in 1..Len(srcs)}]
       ELSE IF \E i \in 1..Len(srcs) : srcs[i] = s THEN Dead ELSE slot[s]]
  /\ UNCHANGED <<held, imps>>
RefuseNest(d, srcs) ==
  /\ Free(d) /\ Takable(srcs)
  /\ \E i \in 1..Len(srcs) : ~Extractable(srcs[i])
  /\ UNCHANGED <<slot, held, imps>>

\* structures that were lent cannot be extracted
RefuseExtract(s) == Live(s) /\ (\E i \in slot[s].imp : imps[i].m = "ll") /\ UNCHANGED <<slot, held, imps>>

\* nor do they change their length, and neither do views
Mutable(s) == ~slot[s].view /\ \A i \in slot[s].imp : OwnMade(imps[i].m)
RefuseMutate(s) == Live(s) /\ NoDep(s) /\ ~Mutable(s) /\ UNCHANGED <<slot, held, imps>>

\* mutation of one array; no other one changes
Mutate(s, v, exact) ==
  /\ Live(s) /\ NoDep(s) /\ Mutable(s)
  /\ slot' = [slot EXCEPT ![s] = [@ EXCEPT !.val = v, !.exact = exact]]
  /\ UNCHANGED <<held, imps>>
\* a null stored through a reference leaves the recorded null count behind
SetAt(s, i, x) == LET v == slot[s].val IN
                  /\ i < Len(v)
                  /\ Mutate(s, [v EXCEPT ![i + 1] = x], slot[s].exact /\ ((x = NullV) = (v[i + 1] = NullV)))
PushTo(s, x) == Mutate(s, Append(slot[s].val, x), TRUE)
PopFrom(s) == slot[s].val # <<>> /\ Mutate(s, SubSeq(slot[s].val, 1, Len(slot[s].val) - 1), TRUE)
InsAt(s, i, x) == LET v == slot[s].val IN
                  i <= Len(v) /\ Mutate(s, SubSeq(v, 1, i) \o <<x>> \o SubSeq(v, i + 1, Len(v)), TRUE)
EraseAt(s, i) == LET v == slot[s].val IN
                 i < Len(v) /\ Mutate(s, SubSeq(v, 1, i) \o SubSeq(v, i + 2, Len(v)), TRUE)

\* Whether two arrays compare equal.  Layouts is what the library can tell
\* apart before looking at the elements: the layout of the root and, in fixed
\* width and list layouts, the types of its values, keys and offsets.
SameType(s, d) == slot[s].ty = slot[d].ty
SameRoot(s, d) == LET t == slot[s].ty u == slot[d].ty IN
                  t[4] = u[4] /\ (t[4] \in {"fsl", "du", "su"} \/ t[1] = u[1])
Equal(s, d) == SameType(s, d) /\ slot[s].val = slot[d].val
\* Nulls of different alternatives of a union: the values do not tell them apart.
RECURSIVE HasUnion(_), HasNull(_)
HasUnion(t) == \/ t[4] \in {"du", "su"} /\ Len(t[2]) > 1
               \/ \E i \in 1..Len(t[2]) : HasUnion(t[2][i])
               \/ \E i \in 1..Len(t[3]) : HasUnion(t[3][i])
HasNull(v) == \/ v[1] = "n"
              \/ v[1] \in {"l", "s"} /\ \E i \in 1..Len(v[2]) : HasNull(v[2][i])
Ambiguous(s) == HasUnion(slot[s].ty) /\ \E i \in 1..Len(slot[s].val) : HasNull(slot[s].val[i])

----------------------------------------------------------------------------
Holders(i) == {s \in Slots : slot[s].live /\ i \in slot[s].imp} \cup (IF held.live /\ i \in held.imp THEN {0} ELSE {})
ReleasedOnce ==
  \A i \in 1..Len(imps) :
    /\ imps[i].ra = (IF GivenArray(imps[i].m) /\ Holders(i) = {} THEN 1 ELSE 0)
    /\ imps[i].rs = (IF GivenSchema(imps[i].m) /\ Holders(i) = {} THEN 1 ELSE 0)
OneHolder == \A i \in 1..Len(imps) : \/ Cardinality(Holders(i)) <= 1
                                        \/ \A s \in Holders(i) : s # 0 /\ slot[s].shared
\* whether both structures belong to the array
OwnsArray(s) == \A i \in slot[s].imp : GivenArray(imps[i].m) \/ OwnMade(imps[i].m)
OwnsSchema(s) == \A i \in slot[s].imp : GivenSchema(imps[i].m) \/ imps[i].m = "os"
\* the datatype: the layout, or that of the keys
DataType(t) == CASE t[4] = "fsl" -> "+w" [] t[4] = "du" -> "+ud" [] t[4] = "su" -> "+us" [] OTHER -> t[1]
\* a view never outlives what it refers to
ViewsAlive == \A s \in Slots : slot[s].live => \A t \in slot[s].dep : slot[t].live /\ t # s
OwnersIndependent == \A s \in Slots : slot[s].live /\ ~slot[s].view => slot[s].dep = {}
=============================================================================
