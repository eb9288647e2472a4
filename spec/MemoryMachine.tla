---------------------------- MODULE MemoryMachine ----------------------------
(* Views over memory that belongs to somebody else.                          *)
(*                                                                           *)
(*   mb  bits,  mv  values: the memory (both lie between guards)             *)
(*   w   two views:  k  0 none, 1 bitset view, 2 buffer view, 3 array over   *)
(*         lent structures (validity in mb, values in mv), 4 the same without*)
(*         validity, 5 and 6 arrays that own copies of 3 and 4, 7 bitset over*)
(*         a buffer it does not own                                          *)
(*       at, n  where it lies  (bits: in units of 64)                        *)
(*       nc     zeros a bitset has counted                                   *)
(*       st     somebody else changed its bits: it may not be read any more  *)
(*       own    the elements of a copy                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NB, NV, Slots, Ks, Lens, Offs, Pos, Vals, Pats, MaxDirty, Reads
VARIABLES mb, mv, pat, w, ev
vars == <<mb, mv, pat, w, ev>>
S == {1, 2}
Null == -1
None == [k |-> 0, at |-> 0, n |-> 0, nc |-> 0, st |-> 0, own |-> <<>>]
Bit0(p, i) == CASE p = 0 -> 1 [] p = 1 -> 0 [] p = 2 -> i % 2 [] OTHER -> IF i % 3 = 0 THEN 0 ELSE 1
Bits(p) == [i \in 1..NB |-> Bit0(p, i)]
Values(p) == [i \in 1..NV |-> (i + p) % 3]
Init == pat = 0 /\ mb = Bits(0) /\ mv = Values(0) /\ w = [s \in S |-> None] /\ ev = [op |-> "load", x |-> <<>>]
Ev(op, x) == ev' = [op |-> op, x |-> x]
Live(s) == s \in S /\ w[s].k # 0
Free(s) == s \in S /\ w[s].k = 0
IsBits(k) == k \in {1, 7}
IsLent(k) == k \in {3, 4}
IsArr(k) == k \in 3..6
Start(v) == IF IsBits(v.k) THEN 64 * v.at ELSE v.at
Zeros(b, v) == Cardinality({i \in (Start(v) + 1)..(Start(v) + v.n) : b[i] = 0})
\* bits a view keeps a count of
Cover(v) == CASE IsBits(v.k) -> (Start(v) + 1)..(Start(v) + v.n) [] v.k = 3 -> 1..(v.at + v.n) [] OTHER -> {}
Fits(k, at, n) == /\ k \in {1, 2, 3, 4, 7}
                  /\ IF IsBits(k) THEN 64 * at + n <= NB ELSE at + n <= NV /\ (k = 3 => at + n <= NB)
                  /\ (k = 7 => at = 0)
\* elements
Elem(v, i) == CASE IsBits(v.k) -> mb[Start(v) + i] [] v.k \in {2, 4} -> mv[v.at + i]
                [] v.k = 3 -> IF mb[v.at + i] = 0 THEN Null ELSE mv[v.at + i] [] OTHER -> v.own[i]
Content(v) == [i \in 1..v.n |-> Elem(v, i)]
Make(k, at, n) == LET v == [None EXCEPT !.k = k, !.at = at, !.n = n] IN
                  [v EXCEPT !.nc = IF IsBits(k) THEN Zeros(mb, v) ELSE 0]
Owning(v) == [None EXCEPT !.k = IF v.k \in {4, 6} THEN 6 ELSE 5, !.n = v.n, !.own = Content(v)]
Memory == <<mb, mv, pat>>
----------------------------------------------------------------------------
\* other memory, while nobody looks at this one
Fill(p) == /\ \A s \in S : w[s].k \in {0, 5, 6} /\ UNCHANGED w
           /\ pat' = p /\ mb' = Bits(p) /\ mv' = Values(p) /\ Ev("fill", <<p>>)
New(s, k, at, n) == /\ Free(s) /\ s \in Slots /\ Fits(k, at, n) /\ UNCHANGED Memory
                    /\ w' = [w EXCEPT ![s] = Make(k, at, n)] /\ Ev("view", <<s, k, at, n>>)
Drop(s) == /\ Live(s) /\ UNCHANGED Memory /\ w' = [w EXCEPT ![s] = None] /\ Ev("drop", <<s>>)
\* a copy of a view is a view;  a copy of an array owns its elements
Copied(v) == IF IsLent(v.k) THEN Owning(v) ELSE v
Copy(s, d) == /\ Live(s) /\ Free(d) /\ d \in Slots /\ UNCHANGED Memory /\ w' = [w EXCEPT ![d] = Copied(w[s])] /\ Ev("copy", <<s, d>>)
Class(k) == CASE IsBits(k) -> k [] k = 2 -> 2 [] OTHER -> 3
Assign(s, d) == /\ Live(s) /\ Live(d) /\ s # d /\ Class(w[s].k) = Class(w[d].k) /\ UNCHANGED Memory
                /\ w' = [w EXCEPT ![d] = Copied(w[s])] /\ Ev("assign", <<s, d>>)
\* what is moved from is destroyed in the same step
Move(s, d) == /\ Live(s) /\ Free(d) /\ d \in Slots /\ UNCHANGED Memory /\ w' = [w EXCEPT ![d] = w[s], ![s] = None] /\ Ev("move", <<s, d>>)
MoveTo(s, d) == /\ Live(s) /\ Live(d) /\ s # d /\ Class(w[s].k) = Class(w[d].k) /\ UNCHANGED Memory
                /\ w' = [w EXCEPT ![d] = w[s], ![s] = None] /\ Ev("moveto", <<s, d>>)
Swap == /\ Live(1) /\ Live(2) /\ Class(w[1].k) = Class(w[2].k) /\ UNCHANGED Memory /\ w' = [w EXCEPT ![1] = w[2], ![2] = w[1]] /\ Ev("swap", <<>>)
\* part of a view is a view of the same memory;  a slice of an array owns its elements
Part(s, d, a, b) == /\ Live(s) /\ Free(d) /\ d \in Slots /\ w[s].k \in {2, 3, 4} /\ a <= b /\ b <= w[s].n /\ UNCHANGED Memory
                    /\ w' = [w EXCEPT ![d] = Make(w[s].k, w[s].at + a, b - a)] /\ Ev("part", <<s, d, a, b>>)
Slice(s, d, a, b) == /\ Live(s) /\ Free(d) /\ d \in Slots /\ IsArr(w[s].k) /\ w[s].st = 0 /\ a <= b /\ b <= w[s].n /\ UNCHANGED Memory
                     /\ w' = [w EXCEPT ![d] = LET o == Owning(w[s]) IN [o EXCEPT !.n = b - a, !.own = SubSeq(@, a + 1, b)]]
                     /\ Ev("slice", <<s, d, a, b>>)
\* every way of reading it
Read(s) == Reads /\ Live(s) /\ UNCHANGED <<Memory, w>> /\ Ev("read", <<s>>)

\* x: a value;  -1 a null, whose value stays;  10 + v a null that carries v
Validity(x) == IF x \in 0..9 THEN 1 ELSE 0
Carried(x, old) == CASE x = Null -> old [] x >= 10 -> x - 10 [] OTHER -> x
Allowed(k, x) == CASE IsBits(k) -> x \in {0, 1} [] k = 2 -> x \in 0..9 [] k \in {4, 6} -> x \in 0..9 [] OTHER -> TRUE
\* elements i+1..j of a view become x
Set(s, i, j, x) ==
  /\ Live(s) /\ i < j /\ j <= w[s].n /\ Allowed(w[s].k, x) /\ Ev("set", <<s, i, j, x>>) /\ UNCHANGED pat
  /\ LET v == w[s]
         lo == Start(v) + i
         hi == Start(v) + j
         nb == TLCEval(CASE IsBits(v.k) -> SubSeq(mb, 1, lo) \o [p \in 1..(j - i) |-> x] \o SubSeq(mb, hi + 1, NB)
                         [] v.k = 3 -> SubSeq(mb, 1, lo) \o [p \in 1..(j - i) |-> Validity(x)] \o SubSeq(mb, hi + 1, NB)
                         [] OTHER -> mb)
         nv == TLCEval(IF v.k \in 2..4 THEN SubSeq(mv, 1, lo) \o [p \in 1..(j - i) |-> Carried(x, mv[lo + p])] \o SubSeq(mv, hi + 1, NV) ELSE mv)
         seen(t) == IF t # s /\ (\E p \in Cover(w[t]) : nb[p] # mb[p]) THEN [w[t] EXCEPT !.st = 1, !.nc = 0] ELSE w[t]
         mine == CASE IsBits(v.k) -> [v EXCEPT !.nc = IF v.st = 1 THEN 0 ELSE @ + Zeros(nb, v) - Zeros(mb, v)]
                   [] v.k \in {5, 6} -> [v EXCEPT !.own = [p \in 1..v.n |-> IF p \in (i + 1)..j THEN (IF Validity(x) = 1 THEN x ELSE Null) ELSE @[p]]]
                   [] OTHER -> v IN
     /\ mb' = nb /\ mv' = nv
     /\ w' = [t \in S |-> IF t = s THEN mine ELSE seen(t)]

Next ==
  \/ \E p \in Pats : Fill(p)
  \/ \E s \in S : Drop(s) \/ Read(s)
  \/ \E s \in S, k \in Ks, at \in Offs, n \in Lens : New(s, k, at, n)
  \/ \E s \in S, d \in S : Copy(s, d) \/ Assign(s, d) \/ Move(s, d) \/ MoveTo(s, d)
  \/ Swap
  \/ \E s \in S, d \in S, a \in Pos, b \in Pos : Part(s, d, a, b) \/ Slice(s, d, a, b)
  \/ \E s \in S, i \in Pos, j \in Pos, x \in Vals : Set(s, i, j, x)
Spec == Init /\ [][Next]_vars
View == <<mb, mv, pat, w>>
Differ(q, r) == LET a == q b == r IN Cardinality({i \in 1..Len(a) : a[i] # b[i]})
Dirty == Differ(mb, [i \in 1..NB |-> Bit0(pat, i)]) + Differ(mv, [i \in 1..NV |-> (i + pat) % 3])
OwnDirty == \A s \in S : Cardinality({i \in 1..Len(w[s].own) : w[s].own[i] = Null}) <= 2
Small == Dirty <= MaxDirty /\ OwnDirty

----------------------------------------------------------------------------
\* what the views show;  -9: not looked at
Look(v) == <<v.k, v.n, IF v.st = 1 THEN <<>> ELSE Content(v), IF v.st = 0 /\ IsBits(v.k) THEN v.nc ELSE 0, 1 - v.st>>
Obs == [mb |-> mb, mv |-> mv, look |-> <<Look(w[1]), Look(w[2])>>,
        guards |-> 1,      \* what lies around the memory is untouched
        structs |-> 1,     \* so are the C structures, none is released
        agree |-> <<>>]    \* all ways of reading say the same
Matches(o, e) == o = e
Flat(v) == <<v.k, v.at, v.n, v.nc, v.st, Len(v.own)>> \o v.own
Dump == <<pat>> \o mb \o mv \o Flat(w[1]) \o Flat(w[2])
Parse(x, at) == [k |-> x[at], at |-> x[at + 1], n |-> x[at + 2], nc |-> x[at + 3], st |-> x[at + 4], own |-> SubSeq(x, at + 6, at + 5 + x[at + 5])]
Load(x) == LET a == NB + NV + 2
               one == Parse(x, a)
               two == Parse(x, a + 6 + Len(one.own)) IN
           /\ pat' = x[1] /\ mb' = SubSeq(x, 2, NB + 1) /\ mv' = SubSeq(x, NB + 2, NB + NV + 1) /\ w' = <<one, two>> /\ Ev("load", x)

TypeOK == \A s \in S : LET v == w[s] IN
            /\ v.k \in {0, 5, 6} \/ Fits(v.k, v.at, v.n)
            /\ (v.st = 0 /\ IsBits(v.k) => v.nc = Zeros(mb, v))
            /\ (v.k \in {5, 6} => Len(v.own) = v.n /\ v.st = 0)
\* only writing through a view changes memory, and only inside of that view
Untouched == [][/\ ev'.op \notin {"set", "fill", "load"} => mb' = mb /\ mv' = mv
                /\ ev'.op = "set" => LET v == w[ev'.x[1]] IN
                     /\ \A i \in 1..NB : mb'[i] # mb[i] => i > Start(v) + ev'.x[2] /\ i <= Start(v) + ev'.x[3] /\ v.k \in {1, 3, 7}
                     /\ \A i \in 1..NV : mv'[i] # mv[i] => i > Start(v) + ev'.x[2] /\ i <= Start(v) + ev'.x[3] /\ v.k \in {2, 3, 4}]_vars
Step(op, x) ==
  CASE op = "load" -> Load(x)
    [] op = "fill" -> Fill(x[1])
    [] op = "view" -> New(x[1], x[2], x[3], x[4])
    [] op = "drop" -> Drop(x[1])
    [] op = "copy" -> Copy(x[1], x[2])
    [] op = "assign" -> Assign(x[1], x[2])
    [] op = "move" -> Move(x[1], x[2])
    [] op = "moveto" -> MoveTo(x[1], x[2])
    [] op = "swap" -> Swap
    [] op = "part" -> Part(x[1], x[2], x[3], x[4])
    [] op = "slice" -> Slice(x[1], x[2], x[3], x[4])
    [] op = "read" -> Read(x[1])
    [] op = "set" -> Set(x[1], x[2], x[3], x[4])
=============================================================================
