---------------------------- MODULE ProxyMachine ----------------------------
(* arrow_proxy: an editable tree of ArrowArray / ArrowSchema pairs.          *)
(*                                                                           *)
(* A node  s     1 made by the library (editable), 0 by somebody else        *)
(*         g     1 its content is released with its parent, 0 it was lent    *)
(*         f     format: 0 "i", 1 "I", 2 "f", 3 "+s"                         *)
(*         nm md fl len off nc   as in the structures; -1: no name, metadata *)
(*         bits  the bits of the validity bitmap that are known              *)
(*         val   what all values of the data buffer are                      *)
(*         ch di children, and <<dictionary>> or <<>>                        *)
(* Two proxies.  md(ode): 0 there is none, 1 owns both structures, 2 owns    *)
(* the array and borrows the schema, 3 borrows both.                         *)
(* A node is designated by <<proxy, p1, p2>>: pi is 0 (stop), a child, or -1 *)
(* (the dictionary).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Roots, Ops, Tmpls, Strs, Flags, Lens, Vals, MaxCh, MaxBits, Modes
VARIABLES root, fr, ev
vars == <<root, fr, ev>>
R == {1, 2}
None == [md |-> 0, t |-> <<>>]

Node(s, f, nm, md, fl, off, bits, len, val) ==
  [s |-> s, g |-> 1, f |-> f, nm |-> nm, md |-> md, fl |-> fl, len |-> len, off |-> off, nc |-> 0, bits |-> bits, val |-> val,
   ch |-> <<>>, di |-> <<>>]
CountNulls(n) == Cardinality({i \in (n.off + 1)..(n.off + n.len) : n.bits[i] = 0})
Counted(n) == [n EXCEPT !.nc = CountNulls(n)]
Prim(s) == Counted(Node(s, 0, 1, -1, 2, 0, <<1, 0, 1, 1, 0>>, 3, 5))
Tmpl(t) ==
  CASE t = 0 -> Prim(1)
    [] t = 1 -> Counted(Node(0, 1, -1, 2, 0, 1, <<0, 0, 1, 0, 1>>, 3, 6))
    [] t = 2 -> [Counted(Node(1, 3, 2, 1, 0, 0, <<1, 1, 0>>, 2, 0)) EXCEPT !.ch = <<Prim(1)>>]
    [] t = 3 -> [Counted(Node(0, 3, 0, 1, 2, 0, <<1, 0>>, 2, 0)) EXCEPT !.ch = <<Prim(0)>>]
    [] t = 4 -> [Prim(1) EXCEPT !.di = <<Prim(1)>>, !.nm = -1]
    [] t = 5 -> Counted(Node(1, 3, -1, -1, 0, 0, <<1, 1, 1>>, 3, 0))
    [] t = 6 -> [Prim(0) EXCEPT !.di = <<Prim(0)>>]
RECURSIVE Depth(_), Cnt(_), Copied(_), Flat(_), Show(_)
Max(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Depth(n) == 1 + Max({Depth(n.ch[i]) : i \in 1..Len(n.ch)} \cup {Depth(n.di[i]) : i \in 1..Len(n.di)})
\* how many structures made by somebody else go away with the node
RECURSIVE SumCnt(_)
SumCnt(q) == IF q = <<>> THEN 0 ELSE (IF q[1].g = 1 THEN Cnt(q[1]) ELSE 0) + SumCnt(Tail(q))
Cnt(n) == (1 - n.s) + SumCnt(n.ch) + SumCnt(n.di)
\* copies belong to the library
Copied(n) == [n EXCEPT !.s = 1, !.g = 1, !.bits = SubSeq(@, 1, n.off + n.len),
                       !.ch = [i \in 1..Len(n.ch) |-> Copied(n.ch[i])],
                       !.di = [i \in 1..Len(n.di) |-> Copied(n.di[i])]]

Init == root = [r \in R |-> None] /\ fr = <<0, 0>> /\ ev = [op |-> "load", x |-> <<>>]
On(op) == op \in Ops
Ev(op, x) == ev' = [op |-> op, x |-> x]
Live(r) == r \in R /\ root[r].md # 0
Free(r) == r \in R /\ root[r].md = 0
Gone(w) == <<(IF w.md \in {1, 2} THEN Cnt(w.t) ELSE 0), (IF w.md = 1 THEN Cnt(w.t) ELSE 0)>>
Nothing == fr' = <<0, 0>>

\* the node at the end of a path, and the tree with something else in its place
Step1(n, p) == IF p = -1 THEN n.di[1] ELSE n.ch[p]
Is(n, p) == IF p = -1 THEN n.di # <<>> ELSE p <= Len(n.ch)
With1(n, p, m) == IF p = -1 THEN [n EXCEPT !.di = <<m>>] ELSE [n EXCEPT !.ch[p] = m]
There(r, p, q) == /\ Live(r) /\ (p = 0 => q = 0)
                  /\ p # 0 => /\ Is(root[r].t, p)
                              /\ q # 0 => Is(Step1(root[r].t, p), q)
At(r, p, q) == LET t == root[r].t IN IF p = 0 THEN t ELSE IF q = 0 THEN Step1(t, p) ELSE Step1(Step1(t, p), q)
Replace(r, p, q, n) ==
  LET t == root[r].t
      u == IF p = 0 THEN n ELSE IF q = 0 THEN With1(t, p, n) ELSE With1(t, p, With1(Step1(t, p), q, n)) IN
  root' = [root EXCEPT ![r].t = u]
Down(p, q) == (IF p = 0 THEN 0 ELSE 1) + (IF q = 0 THEN 0 ELSE 1)
\* an editable node becomes n
Edit(op, r, p, q, n, a) == /\ On(op) /\ There(r, p, q) /\ At(r, p, q).s = 1 /\ Replace(r, p, q, n) /\ Nothing
                           /\ Ev(op, <<r, p, q>> \o a)

----------------------------------------------------------------------------
New(r, t, m)   == /\ On("new") /\ Free(r) /\ r \in Roots /\ root' = [root EXCEPT ![r] = [md |-> m, t |-> Tmpl(t)]] /\ Nothing /\ Ev("new", <<r, t, m>>)
Drop(r)        == /\ On("drop") /\ Live(r) /\ root' = [root EXCEPT ![r] = None] /\ fr' = Gone(root[r]) /\ Ev("drop", <<r>>)
Copy(r, d)     == /\ On("copy") /\ Live(r) /\ Free(d) /\ root' = [root EXCEPT ![d] = [md |-> 1, t |-> Copied(root[r].t)]]
                  /\ Nothing /\ Ev("copy", <<r, d>>)
Assign(r, d)   == /\ On("assign") /\ Live(r) /\ Live(d) /\ Ev("assign", <<r, d>>)
                  /\ IF r = d THEN Nothing /\ UNCHANGED root
                     ELSE root' = [root EXCEPT ![d] = [md |-> 1, t |-> Copied(root[r].t)]] /\ fr' = Gone(root[d])
Move(r, d)     == /\ On("move") /\ Live(r) /\ Free(d) /\ root' = [root EXCEPT ![d] = root[r], ![r] = None] /\ Nothing /\ Ev("move", <<r, d>>)
\* the proxy moved from is destroyed in the same step
MoveAssign(r, d) == /\ On("massign") /\ r # d /\ Live(r) /\ Live(d) /\ root' = [root EXCEPT ![d] = root[r], ![r] = None]
                    /\ fr' = Gone(root[d]) /\ Ev("massign", <<r, d>>)
Swap           == /\ On("swap") /\ Live(1) /\ Live(2) /\ root' = [root EXCEPT ![1] = root[2], ![2] = root[1]] /\ Nothing /\ Ev("swap", <<>>)
\* both structures are extracted, and given to a new proxy
Cycle(r)       == /\ On("cycle") /\ Live(r) /\ root[r].md = 1 /\ UNCHANGED root /\ Nothing /\ Ev("cycle", <<r>>)
Sliced(n, a, b) == Counted([n EXCEPT !.off = @ + a, !.len = b - a])
Slice(r, d, a, b) == /\ On("slice") /\ Live(r) /\ Free(d) /\ a <= b /\ b <= root[r].t.len
                     /\ root' = [root EXCEPT ![d] = [md |-> 1, t |-> Sliced(Copied(root[r].t), a, b)]] /\ Nothing /\ Ev("slice", <<r, d, a, b>>)
\* a view is taken, looked at and dropped
Peek(r, a, b)  == /\ On("peek") /\ Live(r) /\ a <= b /\ b <= root[r].t.len /\ UNCHANGED root /\ Nothing /\ Ev("peek", <<r, a, b>>)

SetName(r, p, q, v)  == Edit("name", r, p, q, [At(r, p, q) EXCEPT !.nm = v], <<v>>)
SetMeta(r, p, q, v)  == Edit("meta", r, p, q, [At(r, p, q) EXCEPT !.md = v], <<v>>)
SetFlags(r, p, q, v) == Edit("flags", r, p, q, [At(r, p, q) EXCEPT !.fl = v], <<v>>)
SetFmt(r, p, q, v)   == /\ There(r, p, q) /\ At(r, p, q).f # 3 /\ v \in 0..2 /\ (At(r, p, q).di # <<>> => v # 2)
                        /\ Edit("format", r, p, q, [At(r, p, q) EXCEPT !.f = v], <<v>>)
SetLen(r, p, q, v)   == /\ There(r, p, q) /\ At(r, p, q).off + v <= Len(At(r, p, q).bits)
                        /\ Edit("length", r, p, q, Counted([At(r, p, q) EXCEPT !.len = v]), <<v>>)
SetNc(r, p, q, v)    == Edit("nulls", r, p, q, [At(r, p, q) EXCEPT !.nc = v], <<v>>)
SetOff(r, p, q, v)   == /\ There(r, p, q) /\ v + At(r, p, q).len <= Len(At(r, p, q).bits)
                        /\ Edit("offset", r, p, q, [At(r, p, q) EXCEPT !.off = v], <<v>>)
\* what the driver fills the data buffer with when an array that has no elements grows
Grown(n) == IF n.f # 3 /\ n.off + n.len = 0 THEN [n EXCEPT !.val = 5] ELSE n
SetBits(r, p, q, b)  == /\ There(r, p, q) /\ Len(b) >= At(r, p, q).off + At(r, p, q).len
                        /\ Edit("bits", r, p, q, Counted([Grown(At(r, p, q)) EXCEPT !.bits = b]), b)
SetVal(r, p, q, v)   == /\ There(r, p, q) /\ At(r, p, q).f # 3
                        /\ Edit("value", r, p, q, Counted([At(r, p, q) EXCEPT !.val = v]), <<v>>)
\* the bitmap is edited, then the length is set accordingly
Used(n) == SubSeq(n.bits, 1, n.off + n.len)
\* room for k more buffers is made, and taken away again
Buffers(r, p, q, k)  == Edit("buffers", r, p, q, At(r, p, q), <<k>>)
InsBits(r, p, q, i, v) ==
  /\ There(r, p, q) /\ i <= At(r, p, q).len /\ Len(Used(At(r, p, q))) + Len(v) <= MaxBits
  /\ LET n == Grown(At(r, p, q))
         at == n.off + i IN
     Edit("insert", r, p, q, Counted([n EXCEPT !.bits = SubSeq(@, 1, at) \o v \o SubSeq(@, at + 1, n.off + n.len), !.len = @ + Len(v)]), <<i>> \o v)
EraseBits(r, p, q, i, c) ==
  /\ There(r, p, q) /\ i < At(r, p, q).len /\ i + c <= At(r, p, q).len
  /\ LET n == At(r, p, q)
         at == n.off + i IN
     Edit("erase", r, p, q, Counted([n EXCEPT !.bits = SubSeq(@, 1, at) \o SubSeq(@, at + c + 1, n.off + n.len), !.len = @ - c]), <<i, c>>)
ResizeBits(r, p, q, l, v) ==
  /\ There(r, p, q) /\ At(r, p, q).off + l <= MaxBits
  /\ LET n == Grown(At(r, p, q)) IN
     Edit("resize", r, p, q, Counted([n EXCEPT !.bits = [i \in 1..(n.off + l) |-> IF i <= n.off + n.len THEN n.bits[i] ELSE v], !.len = l]), <<l, v>>)

Fits(p, q, t) == Down(p, q) + 1 + Depth(Tmpl(t)) <= 3
Given(t, g) == [Tmpl(t) EXCEPT !.g = g]
\* g = 1: given away; 0: lent
AddChild(r, p, q, t, g) == /\ There(r, p, q) /\ At(r, p, q).f = 3 /\ Len(At(r, p, q).ch) < MaxCh /\ Fits(p, q, t)
                           /\ Edit("add", r, p, q, [At(r, p, q) EXCEPT !.ch = Append(@, Given(t, g))], <<t, g>>)
AddTwo(r, p, q, t, u, g) == /\ There(r, p, q) /\ At(r, p, q).f = 3 /\ Len(At(r, p, q).ch) + 1 < MaxCh /\ Fits(p, q, t) /\ Fits(p, q, u)
                            /\ Edit("addtwo", r, p, q, [At(r, p, q) EXCEPT !.ch = @ \o <<Given(t, g), Given(u, g)>>], <<t, u, g>>)
EditF(op, r, p, q, n, a, f) == /\ On(op) /\ There(r, p, q) /\ At(r, p, q).s = 1 /\ Replace(r, p, q, n) /\ fr' = f /\ Ev(op, <<r, p, q>> \o a)
Pop(r, p, q, c) == /\ There(r, p, q) /\ c <= Len(At(r, p, q).ch) /\ At(r, p, q).f = 3
                   /\ LET n == At(r, p, q)
                          k == Len(n.ch) - c
                          f == SumCnt(SubSeq(n.ch, k + 1, Len(n.ch))) IN
                      EditF("pop", r, p, q, [n EXCEPT !.ch = SubSeq(@, 1, k)], <<c>>, <<f, f>>)
SetChild(r, p, q, i, t, g) == /\ There(r, p, q) /\ At(r, p, q).f = 3 /\ i <= Len(At(r, p, q).ch) /\ Fits(p, q, t)
                              /\ LET n == At(r, p, q)
                                     f == SumCnt(<<n.ch[i]>>) IN
                                 EditF("set", r, p, q, [n EXCEPT !.ch[i] = Given(t, g)], <<i, t, g>>, <<f, f>>)
SetDict(r, p, q, t) == /\ There(r, p, q) /\ At(r, p, q).f \in {0, 1} /\ Fits(p, q, t)
                       /\ LET n == At(r, p, q)
                              f == SumCnt(n.di) IN
                          EditF("dict", r, p, q, [n EXCEPT !.di = <<Tmpl(t)>>], <<t>>, <<f, f>>)
NoDict(r, p, q) == /\ There(r, p, q) /\ At(r, p, q).f \in {0, 1} /\ At(r, p, q).di # <<>>
                   /\ LET n == At(r, p, q)
                          f == SumCnt(n.di) IN
                      EditF("nodict", r, p, q, [n EXCEPT !.di = <<>>], <<>>, <<f, f>>)

\* Calls that are refused, and change nothing.  k <= 29: edits of what the
\* library did not make;  30, 31: extraction of an array or a schema that is
\* not owned;  32: removing more children than there are;  33: positions past
\* the end of a bitmap.
Refusals == 0..26
Refuse(r, p, q, k) ==
  /\ On("refuse") /\ There(r, p, q)
  /\ CASE k \in Refusals -> At(r, p, q).s = 0
       [] k = 30 -> p # 0 \/ root[r].md = 3
       [] k = 31 -> p # 0 \/ root[r].md \in {2, 3}
       [] k \in {32, 33} -> At(r, p, q).s = 1
       [] OTHER -> FALSE
  /\ UNCHANGED root /\ Nothing /\ Ev("refuse", <<r, p, q, k>>)

P == {-1} \cup 0..MaxCh
Bits == {<<1>>, <<0>>, <<0, 1>>, <<0, 0, 0>>}
Whole == {[i \in 1..n |-> IF i % m = 0 THEN 0 ELSE 1] : n \in {MaxBits - 1, MaxBits}, m \in 1..3}
Next ==
  \/ \E r \in R, t \in Tmpls, m \in Modes : New(r, t, m)
  \/ \E r \in R : Drop(r) \/ Cycle(r)
  \/ \E r \in R, d \in R : Copy(r, d) \/ Assign(r, d) \/ Move(r, d) \/ MoveAssign(r, d)
  \/ Swap
  \/ \E r \in R, d \in R, a \in Lens, b \in Lens : Slice(r, d, a, b) \/ Peek(r, a, b)
  \/ \E r \in R, p \in P, q \in P :
       There(r, p, q) /\
       \/ \E v \in Strs : SetName(r, p, q, v) \/ SetMeta(r, p, q, v)
       \/ \E v \in Flags : SetFlags(r, p, q, v)
       \/ \E v \in 0..2 : SetFmt(r, p, q, v)
       \/ \E v \in Lens : SetLen(r, p, q, v) \/ SetOff(r, p, q, v) \/ SetNc(r, p, q, v)
       \/ \E v \in Whole : SetBits(r, p, q, v)
       \/ \E v \in Vals : SetVal(r, p, q, v)
       \/ \E k \in 0..2 : Buffers(r, p, q, k)
       \/ \E i \in Lens, v \in Bits : InsBits(r, p, q, i, v)
       \/ \E i \in Lens, c \in Lens : EraseBits(r, p, q, i, c)
       \/ \E l \in Lens, v \in {0, 1} : ResizeBits(r, p, q, l, v)
       \/ \E t \in Tmpls, g \in {0, 1} : AddChild(r, p, q, t, g)
       \/ \E t \in Tmpls, u \in Tmpls, g \in {0, 1} : AddTwo(r, p, q, t, u, g)
       \/ \E c \in 0..2 : Pop(r, p, q, c)
       \/ \E i \in 1..MaxCh, t \in Tmpls, g \in {0, 1} : SetChild(r, p, q, i, t, g)
       \/ \E t \in Tmpls : SetDict(r, p, q, t)
       \/ NoDict(r, p, q)
       \/ \E k \in 0..33 : Refuse(r, p, q, k)
Spec == Init /\ [][Next]_vars
View == root

----------------------------------------------------------------------------
\* what both the structures and the proxies show
Show(n) == [s |-> n.s, f |-> n.f, nm |-> n.nm, md |-> n.md, fl |-> n.fl, len |-> n.len, off |-> n.off, nc |-> n.nc, bits |-> Used(n),
            val |-> IF n.f = 3 \/ n.off + n.len = 0 THEN 0 ELSE n.val,
            ch |-> [i \in 1..Len(n.ch) |-> Show(n.ch[i])], di |-> [i \in 1..Len(n.di) |-> Show(n.di[i])]]
See(r) == IF root[r].md = 0 THEN <<>> ELSE <<Show(root[r].t)>>
Own(r) == CASE root[r].md = 0 -> <<-1, -1>> [] root[r].md = 1 -> <<1, 1>> [] root[r].md = 2 -> <<1, 0>> [] OTHER -> <<0, 0>>
\* a view of a slice is not editable
Peeked == IF ev.op # "peek" THEN <<>> ELSE <<Show([Sliced(root[ev.x[1]].t, ev.x[2], ev.x[3]) EXCEPT !.s = 0])>>
Obs == [raw |-> <<See(1), See(2)>>, prox |-> <<See(1), See(2)>>, own |-> <<Own(1), Own(2)>>, fr |-> fr,
        lost |-> 0,     \* what was lent is still there, nothing else is
        threw |-> IF ev.op = "refuse" THEN 1 ELSE 0,
        peek |-> Peeked]
Matches(o, e) == o = e

RECURSIVE FlatAll(_)
FlatAll(qs) == IF qs = <<>> THEN <<>> ELSE Flat(qs[1]) \o FlatAll(Tail(qs))
Flat(n) == <<n.s, n.g, n.f, n.nm, n.md, n.fl, n.len, n.off, n.nc, n.val, Len(n.bits)>> \o n.bits
           \o <<Len(n.ch)>> \o FlatAll(n.ch) \o <<Len(n.di)>> \o FlatAll(n.di)
Dump == (IF Live(1) THEN <<root[1].md>> \o Flat(root[1].t) ELSE <<0>>) \o (IF Live(2) THEN <<root[2].md>> \o Flat(root[2].t) ELSE <<0>>)
\* <<node, position after it>>
RECURSIVE Parse(_, _), ParseAll(_, _, _)
ParseAll(x, at, k) == IF k = 0 THEN <<<<>>, at>>
                      ELSE LET a == Parse(x, at)
                               b == ParseAll(x, a[2], k - 1) IN <<<<a[1]>> \o b[1], b[2]>>
Parse(x, at) ==
  LET nb == x[at + 10]
      c  == at + 11 + nb
      cs == ParseAll(x, c + 1, x[c])
      ds == ParseAll(x, cs[2] + 1, x[cs[2]]) IN
  <<[s |-> x[at], g |-> x[at + 1], f |-> x[at + 2], nm |-> x[at + 3], md |-> x[at + 4], fl |-> x[at + 5], len |-> x[at + 6],
     off |-> x[at + 7], nc |-> x[at + 8], val |-> x[at + 9], bits |-> SubSeq(x, at + 11, at + 10 + nb), ch |-> cs[1], di |-> ds[1]], ds[2]>>
ParseRoot(x, at) == IF x[at] = 0 THEN <<None, at + 1>>
                    ELSE LET n == Parse(x, at + 1) IN <<[md |-> x[at], t |-> n[1]], n[2]>>
Load(x) == LET a == ParseRoot(x, 1)
               b == ParseRoot(x, a[2]) IN
           root' = <<a[1], b[1]>> /\ Nothing /\ Ev("load", x)

----------------------------------------------------------------------------
RECURSIVE Ok(_)
Ok(n) == /\ n.len >= 0 /\ n.off >= 0 /\ n.off + n.len <= Len(n.bits) /\ Len(n.bits) <= MaxBits
         /\ (n.ch # <<>> => n.f = 3) /\ Len(n.di) <= 1
         /\ n.s = 0 => \A i \in 1..Len(n.ch) : n.ch[i].s = 0 /\ n.ch[i].g = 1
         /\ \A i \in 1..Len(n.ch) : Ok(n.ch[i])
         /\ \A i \in 1..Len(n.di) : Ok(n.di[i]) /\ n.di[i].g = 1
TypeOK == \A r \in R : root[r].md # 0 => Ok(root[r].t) /\ Depth(root[r].t) <= 3
DumpsBack == Live(1) \/ Live(2) => ParseRoot(Dump, ParseRoot(Dump, 1)[2])[1] = root[2] /\ ParseRoot(Dump, 1)[1] = root[1]
\* one proxy's edits leave the other one alone, and releases are those of what left a tree
Local == [][ev'.op \in {"name", "meta", "flags", "format", "length", "nulls", "offset", "bits", "value", "buffers", "insert", "erase", "resize",
                        "add", "addtwo", "pop", "set", "dict", "nodict", "refuse", "peek"}
              => root'[3 - ev'.x[1]] = root[3 - ev'.x[1]]]_vars
Total == (IF Live(1) /\ root[1].md = 1 THEN Cnt(root[1].t) ELSE 0) + (IF Live(2) /\ root[2].md = 1 THEN Cnt(root[2].t) ELSE 0)
Balance == [][(\/ ev'.op \in {"massign", "swap", "cycle", "move"}
               \/ ev'.op \in {"pop", "nodict", "refuse"} /\ ev'.x[2] = 0) /\ (\A r \in R : root[r].md \in {0, 1}) => Total' + fr'[1] = Total]_vars

Step(op, x) ==
  CASE op = "load" -> Load(x)
    [] op = "new" -> New(x[1], x[2], x[3])
    [] op = "drop" -> Drop(x[1])
    [] op = "copy" -> Copy(x[1], x[2])
    [] op = "assign" -> Assign(x[1], x[2])
    [] op = "move" -> Move(x[1], x[2])
    [] op = "massign" -> MoveAssign(x[1], x[2])
    [] op = "swap" -> Swap
    [] op = "cycle" -> Cycle(x[1])
    [] op = "slice" -> Slice(x[1], x[2], x[3], x[4])
    [] op = "peek" -> Peek(x[1], x[2], x[3])
    [] op = "name" -> SetName(x[1], x[2], x[3], x[4])
    [] op = "meta" -> SetMeta(x[1], x[2], x[3], x[4])
    [] op = "flags" -> SetFlags(x[1], x[2], x[3], x[4])
    [] op = "format" -> SetFmt(x[1], x[2], x[3], x[4])
    [] op = "length" -> SetLen(x[1], x[2], x[3], x[4])
    [] op = "nulls" -> SetNc(x[1], x[2], x[3], x[4])
    [] op = "offset" -> SetOff(x[1], x[2], x[3], x[4])
    [] op = "bits" -> SetBits(x[1], x[2], x[3], SubSeq(x, 4, Len(x)))
    [] op = "value" -> SetVal(x[1], x[2], x[3], x[4])
    [] op = "buffers" -> Buffers(x[1], x[2], x[3], x[4])
    [] op = "insert" -> InsBits(x[1], x[2], x[3], x[4], SubSeq(x, 5, Len(x)))
    [] op = "erase" -> EraseBits(x[1], x[2], x[3], x[4], x[5])
    [] op = "resize" -> ResizeBits(x[1], x[2], x[3], x[4], x[5])
    [] op = "add" -> AddChild(x[1], x[2], x[3], x[4], x[5])
    [] op = "addtwo" -> AddTwo(x[1], x[2], x[3], x[4], x[5], x[6])
    [] op = "pop" -> Pop(x[1], x[2], x[3], x[4])
    [] op = "set" -> SetChild(x[1], x[2], x[3], x[4], x[5], x[6])
    [] op = "dict" -> SetDict(x[1], x[2], x[3], x[4])
    [] op = "nodict" -> NoDict(x[1], x[2], x[3])
    [] op = "refuse" -> Refuse(x[1], x[2], x[3], x[4])
=============================================================================
