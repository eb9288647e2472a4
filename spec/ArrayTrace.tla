----------------------------- MODULE ArrayTrace -----------------------------
(* Accepts an ndjson trace recorded from the library exactly when every step *)
(* of it is a step of ArrayMachine and reports what the specification says.  *)
EXTENDS ArrayMachine, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The driver makes the structures it imports; they have to conform.
Conformant(r) == Assert(WellFormed(r), <<"the driver made a malformed structure", r>>)

\* a new session: everything is forgotten
Reset == slot' = [s \in Slots |-> Dead] /\ held' = Dead /\ imps' = <<>>

Step(e) ==
  \/ e.op = "new"     /\ Reset
  \/ e.op = "imp"     /\ Conformant(e.raw) /\ Import(e.d, e.raw, e.m)
  \/ e.op = "badimp"  /\ Unreadable(e.raw) # {} /\ RefuseImport(e.d, e.m)
  \/ e.op = "nomut"   /\ RefuseMutate(e.s)
  \/ e.op = "make"    /\ Conformant(e.raw) /\ Make(e.d, Decode(e.raw), TypeOf(e.raw))
  \/ e.op = "nest"    /\ IF e.out = 1 THEN Nest(e.d, e.raw, SubSeq(e.x, 3, Len(e.x))) ELSE RefuseNest(e.d, SubSeq(e.x, 3, Len(e.x)))
  \/ e.op = "copy"    /\ Copy(e.s, e.d)
  \/ e.op = "assign"  /\ Assign(e.s, e.d)
  \/ e.op = "self"    /\ SelfAssign(e.s)
  \/ e.op = "move"    /\ Move(e.s, e.d)
  \/ e.op = "massign" /\ MoveAssign(e.s, e.d)
  \/ e.op = "swap"    /\ Swap(e.s, e.d)
  \/ e.op = "wrap"    /\ Wrap(e.s)
  \/ e.op = "refer"   /\ Refer(e.s, e.d)
  \/ e.op = "share"   /\ Share(e.s)
  \/ e.op = "none"    /\ None(e.d)
  \/ e.op = "slice"   /\ SliceOf(e.s, e.d, e.x[1], e.x[2])
  \/ e.op = "view"    /\ ViewOf(e.s, e.d, e.x[1], e.x[2])
  \/ e.op = "drop"    /\ Drop(e.s)
  \/ e.op = "ext"     /\ Extract(e.s)
  \/ e.op = "back"    /\ GiveBack(e.d)
  \/ e.op = "rel"     /\ ReleaseHeld
  \/ e.op = "noext"   /\ RefuseExtract(e.s)
  \/ e.op = "set"     /\ SetAt(e.s, e.x[1], e.v)
  \/ e.op = "push"    /\ PushTo(e.s, e.v)
  \/ e.op = "pop"     /\ PopFrom(e.s)
  \/ e.op = "ins"     /\ InsAt(e.s, e.x[1], e.v)
  \/ e.op = "er"      /\ EraseAt(e.s, e.x[1])
  \/ e.op = "export"  /\ Read(e.s)
  \/ e.op = "eq"      /\ Read(e.s) /\ Live(e.d)
  \/ e.op = "paths"   /\ Read(e.s)
  \/ e.op = "pos"     /\ Read(e.s)
  \/ e.op = "at"      /\ Read(e.s)
  \/ e.op = "end"     /\ UNCHANGED <<slot, held, imps>>

B(x) == IF x THEN 1 ELSE 0
\* what the call itself has to return
Result(e) ==
  CASE e.op = "export" ->
         /\ WF(e.out, slot[e.s].exact)
         /\ TypeOf(e.out) = slot[e.s].ty
         /\ Decode(e.out) = slot[e.s].val
         /\ e.out.dt = DataType(slot[e.s].ty)
         /\ slot[e.s].view \/ e.out.own = <<B(OwnsArray(e.s)), B(OwnsSchema(e.s))>>
         /\ e.out.acc = 1
    [] e.op = "eq" ->
         /\ SameType(e.s, e.d) =>
              LET q == B(Equal(e.s, e.d)) IN
              \/ e.out = <<q, q, 1 - q>>
              \/ q = 1 /\ e.s # e.d /\ Ambiguous(e.s) /\ e.out = <<0, 0, 1>>
         /\ ~SameRoot(e.s, e.d) => e.out = <<0, 0, 1>>
    [] e.op = "paths" -> \A i \in 1..Len(e.out) : e.out[i][2] = slot[e.s].val
    \* iterators i and j positions from the first: distance, order, where i + (j - i) is
    [] e.op = "pos" ->
         LET i == e.x[1] j == e.x[2] IN
         e.out = <<j - i, i - j, B(i < j), B(i > j), B(i <= j), B(i >= j), B(i = j), B(i # j), 1, 1>>
    \* checked access: 1 an element, 0 the documented exception
    [] e.op = "at" -> e.out = B(e.x[1] >= 0 /\ e.x[1] < Len(slot[e.s].val))
    \* the documented kinds of exceptions
    [] e.op = "badimp" -> \/ e.out = 1 /\ "runtime" \in Unreadable(e.raw)
                          \/ e.out = 2 /\ "argument" \in Unreadable(e.raw)
    [] e.op = "nest" -> e.out \in {0, 1}
    [] e.op = "nomut" -> e.out = 1
    [] e.op = "noext" -> e.out = <<1, 1>>
    [] e.op = "end" -> /\ \A s \in Slots : ~slot[s].live
                       /\ ~held.live
                       /\ e.leak = 0
    [] OTHER -> TRUE

\* what has to be seen of all arrays and imports after every call
Observed(e) ==
  /\ Len(e.obs) = Cardinality({s \in Slots : slot'[s].live})
  /\ \A i \in 1..Len(e.obs) : LET o == e.obs[i] IN
       /\ slot'[o[1]].live
       /\ o[2] = slot'[o[1]].val
       /\ \A j \in 1..(i - 1) : e.obs[j][1] # o[1]
  /\ Len(e.rel) = Len(imps')
  /\ \A i \in 1..Len(imps') : e.rel[i] = <<imps'[i].ra, imps'[i].rs, 0>>
  /\ e.tch = <<>>

TraceInit == Init /\ l = 1
Why(e) == PrintT(<<"REJECTED", l, e.op, IF e.op \in {"new", "imp", "make", "copy", "slice", "view", "move", "back"}
                                        THEN <<>> ELSE <<slot, imps>>>>)
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                  /\ ev' = e.op
                  /\ Step(e)
                  /\ Result(e)
                  /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Sound == ReleasedOnce /\ OneHolder /\ ViewsAlive /\ OwnersIndependent
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
                   PrintT(<<"ACCEPTED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
