----------------------------- MODULE SeqMachine -----------------------------
(* Two sequence objects, a and b, under the operations of sparrow's sequence *)
(* like types: buffers, buffer adaptors, bitsets, mutable arrays of          *)
(* fixed-width and of variable-size values.  An element is an integer: a     *)
(* value (>= 0) or, for arrays, Null.                                        *)
(*                                                                           *)
(* One action per public operation.  ret is the position designated by the   *)
(* returned iterator, or NoRet.  ev is the label of the step.  xa and xb     *)
(* tell whether the recorded null count of a and b has to be exact: element  *)
(* assignment through a reference that changes nullness may leave it stale   *)
(* until the next structural operation (see SetElem).                        *)
EXTENDS SeqLib, TLC

CONSTANTS
  Vals,        \* elements used by operations
  Default,     \* what resize(n) appends
  MaxLen,      \* bound of the exploration for a
  MaxLenB,     \* ... and for b
  MaxCnt,      \* largest count given to insert(pos, n, v)
  MaxRange,    \* longest range given to insert(pos, first, last)
  Ops          \* names of the operations the family supports

VARIABLES a, b, ret, ev, xa, xb
vars == <<a, b, ret, ev, xa, xb>>

Null  == -1
NoRet == -1

On(op) == op \in Ops
Ev(op, x, t) == ev' = [op |-> op, x |-> x, t |-> t]
Keep == b' = b /\ xb' = xb /\ xa' = (xa \/ Len(a') # Len(a))
KeepStale == b' = b /\ UNCHANGED <<xa, xb>>
NoIt == ret' = NoRet

Push(v)         == /\ On("push") /\ a' = Append(a, v) /\ Keep /\ NoIt /\ Ev("push", <<v>>, <<>>)
PushSelf(i)     == /\ On("pushSelf") /\ i \in 0..Len(a)-1 /\ a' = Append(a, At(a, i))
                   /\ Keep /\ NoIt /\ Ev("pushSelf", <<i>>, <<>>)
Pop             == /\ On("pop") /\ Len(a) > 0 /\ a' = SubSeq(a, 1, Len(a)-1)
                   /\ Keep /\ NoIt /\ Ev("pop", <<>>, <<>>)
Ins(p, v)       == /\ On("ins") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, <<v>>) /\ ret' = p
                   /\ Keep /\ Ev("ins", <<p, v>>, <<>>)
InsSelf(p, i)   == /\ On("insSelf") /\ p \in 0..Len(a) /\ i \in 0..Len(a)-1
                   /\ a' = InsertAt(a, p, <<At(a, i)>>) /\ ret' = p
                   /\ Keep /\ Ev("insSelf", <<p, i>>, <<>>)
InsN(p, n, v)   == /\ On("insN") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, Rep(n, v)) /\ ret' = p
                   /\ Keep /\ Ev("insN", <<p, n, v>>, <<>>)
InsNSelf(p,n,i) == /\ On("insNSelf") /\ p \in 0..Len(a) /\ i \in 0..Len(a)-1
                   /\ a' = InsertAt(a, p, Rep(n, At(a, i))) /\ ret' = p
                   /\ Keep /\ Ev("insNSelf", <<p, n, i>>, <<>>)
InsR(p, t)      == /\ On("insR") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, t) /\ ret' = p
                   /\ Keep /\ Ev("insR", <<p>>, t)
InsL(p, t)      == /\ On("insL") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, t) /\ ret' = p
                   /\ Keep /\ Ev("insL", <<p>>, t)
\* the range inserted is the whole content of the other object
InsB(p)         == /\ On("insB") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, b) /\ ret' = p
                   /\ Keep /\ Ev("insB", <<p>>, <<>>)
Emplace(p, v)   == /\ On("emplace") /\ p \in 0..Len(a) /\ a' = InsertAt(a, p, <<v>>) /\ ret' = p
                   /\ Keep /\ Ev("emplace", <<p, v>>, <<>>)
Er(p)           == /\ On("er") /\ p \in 0..Len(a)-1 /\ a' = EraseAt(a, p, p+1) /\ ret' = p
                   /\ Keep /\ Ev("er", <<p>>, <<>>)
\* erasing the empty range of an empty sequence is outside the contract of bitsets (asserted)
ErR(p, q)       == /\ On("erR") /\ (Len(a) > 0 \/ On("erR0")) /\ p \in 0..Len(a) /\ q \in p..Len(a) /\ a' = EraseAt(a, p, q) /\ ret' = p
                   /\ Keep /\ Ev("erR", <<p, q>>, <<>>)
Res(n)          == /\ On("res") /\ a' = ResizeTo(a, n, Default) /\ Keep /\ NoIt /\ Ev("res", <<n>>, <<>>)
ResV(n, v)      == /\ On("resV") /\ a' = ResizeTo(a, n, v) /\ Keep /\ NoIt /\ Ev("resV", <<n, v>>, <<>>)
ResVSelf(n, i)  == /\ On("resVSelf") /\ i \in 0..Len(a)-1 /\ a' = ResizeTo(a, n, At(a, i))
                   /\ Keep /\ NoIt /\ Ev("resVSelf", <<n, i>>, <<>>)
Clear           == /\ On("clear") /\ a' = <<>> /\ Keep /\ NoIt /\ Ev("clear", <<>>, <<>>)
\* element assignment through each kind of reference the type offers (w selects it)
SetElem(i,v,w)  == /\ On("set") /\ i \in 0..Len(a)-1 /\ a' = Put(a, i, v)
                   /\ b' = b /\ xb' = xb /\ xa' = (xa /\ ((v = Null) <=> (At(a, i) = Null))) /\ NoIt /\ Ev("set", <<i, v, w>>, <<>>)
AsgL(t)         == /\ On("asgL") /\ a' = t /\ Keep /\ NoIt /\ Ev("asgL", <<>>, t)
AsgN(n, v)      == /\ On("asgN") /\ a' = Rep(n, v) /\ Keep /\ NoIt /\ Ev("asgN", <<n, v>>, <<>>)
Reserve(n)      == /\ On("reserve") /\ a' = a /\ Keep /\ NoIt /\ Ev("reserve", <<n>>, <<>>)
Shrink          == /\ On("shrink") /\ a' = a /\ Keep /\ NoIt /\ Ev("shrink", <<>>, <<>>)
CopyTo          == /\ On("copyTo") /\ b' = a /\ a' = a /\ xb' = xa /\ xa' = xa /\ NoIt /\ Ev("copyTo", <<>>, <<>>)        \* b = a
CopyNew         == /\ On("copyNew") /\ b' = a /\ a' = a /\ xb' = xa /\ xa' = xa /\ NoIt /\ Ev("copyNew", <<>>, <<>>)      \* b destroyed, then copy-constructed
MoveTo          == /\ On("moveTo") /\ b' = a /\ a' = <<>> /\ xb' = xa /\ xa' = TRUE /\ NoIt /\ Ev("moveTo", <<>>, <<>>)     \* b = move(a); a = empty
MoveNew         == /\ On("moveNew") /\ b' = a /\ a' = <<>> /\ xb' = xa /\ xa' = TRUE /\ NoIt /\ Ev("moveNew", <<>>, <<>>)
SelfAsg         == /\ On("selfAsg") /\ a' = a /\ KeepStale /\ NoIt /\ Ev("selfAsg", <<>>, <<>>)        \* a = a
SwapAB          == /\ On("swap") /\ a' = b /\ b' = a /\ xa' = xb /\ xb' = xa /\ NoIt /\ Ev("swap", <<>>, <<>>)
DropB           == /\ On("dropB") /\ a' = a /\ b' = <<>> /\ xa' = xa /\ xb' = TRUE /\ NoIt /\ Ev("dropB", <<>>, <<>>)      \* b destroyed and replaced
\* a becomes its own slice [p, q)
SliceA(p, q)    == /\ On("slice") /\ p \in 0..Len(a) /\ q \in p..Len(a) /\ a' = Slice(a, p, q)
                   /\ Keep /\ NoIt /\ Ev("slice", <<p, q>>, <<>>)

Init == /\ a = <<>> /\ b = <<>> /\ xa = TRUE /\ xb = TRUE /\ ret = NoRet
        /\ ev = [op |-> "new", x |-> <<>>, t |-> <<>>]

Idx == 0..MaxLen
Ways == 0..2

Next ==
  \/ \E v \in Vals : Push(v)
  \/ \E i \in Idx : PushSelf(i)
  \/ Pop
  \/ \E p \in Idx, v \in Vals : Ins(p, v) \/ Emplace(p, v)
  \/ \E p \in Idx, i \in Idx : InsSelf(p, i)
  \/ \E p \in Idx, n \in 0..MaxCnt, v \in Vals : InsN(p, n, v)
  \/ \E p \in Idx, n \in 0..MaxCnt, i \in Idx : InsNSelf(p, n, i)
  \/ \E p \in Idx, t \in SeqsUpTo(Vals, MaxRange) : InsR(p, t) \/ InsL(p, t)
  \/ \E p \in Idx : InsB(p)
  \/ \E p \in Idx : Er(p)
  \/ \E p \in Idx, q \in Idx : ErR(p, q) \/ SliceA(p, q)
  \/ \E n \in Idx : Res(n)
  \/ \E n \in Idx, v \in Vals : ResV(n, v)
  \/ \E n \in Idx, i \in Idx : ResVSelf(n, i)
  \/ Clear
  \/ \E i \in Idx, v \in Vals, w \in Ways : SetElem(i, v, w)
  \/ \E t \in SeqsUpTo(Vals, MaxRange) : AsgL(t)
  \/ \E n \in 0..MaxCnt, v \in Vals : AsgN(n, v)
  \/ \E n \in Idx : Reserve(n)
  \/ Shrink
  \/ CopyTo \/ CopyNew \/ MoveTo \/ MoveNew \/ SelfAsg \/ SwapAB \/ DropB

Spec == Init /\ [][Next]_vars

Bounded == Len(a) <= MaxLen /\ Len(b) <= MaxLenB

(* ---------------- properties of the design ---------------- *)
Elems(s) == {s[i] : i \in DOMAIN s}
TypeOK == /\ xa \in BOOLEAN /\ xb \in BOOLEAN
          /\ Elems(a) \subseteq Vals \cup {Default}
          /\ Elems(b) \subseteq Vals \cup {Default}
          /\ ret \in Int
\* the returned iterator designates the first inserted element, or the element after the erased ones
RetOK == ret # NoRet => ret \in 0..Len(a)
\* insertions and erasures keep the elements around the edited position
Around ==
  [][ /\ ev'.op \in {"ins","insN","insR","insL","insSelf","insNSelf","insB","emplace"} =>
          LET p == ev'.x[1] k == Len(a') - Len(a) IN
            /\ k >= 0
            /\ SubSeq(a', 1, p) = SubSeq(a, 1, p)
            /\ SubSeq(a', p + k + 1, Len(a')) = SubSeq(a, p + 1, Len(a))
      /\ ev'.op \in {"er","erR"} =>
          LET p == ev'.x[1] k == Len(a) - Len(a') IN
            /\ k >= 0
            /\ SubSeq(a', 1, p) = SubSeq(a, 1, p)
            /\ SubSeq(a', p + 1, Len(a')) = SubSeq(a, p + k + 1, Len(a))
      /\ ev'.op = "set" => \A i \in DOMAIN a : i # ev'.x[1] + 1 => a'[i] = a[i]
      /\ ev'.op \notin {"copyTo","copyNew","moveTo","moveNew","swap","dropB"} => b' = b ]_vars
=============================================================================
