---------------------------- MODULE BatchMachine ----------------------------
(* Record batches, and the ranges of names and columns they are built from.  *)
(* Owner 0 is the pair of ranges, 1 and 2 are batches.  A column is          *)
(* <<name, kind, seed>>; with n rows its content is Content(kind, n, seed).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Kinds, Seeds, Rows, MaxCols
VARIABLES own, ev
vars == <<own, ev>>
AllNames == 0..3
Batches == {1, 2}
None  == [st |-> 0, n |-> 0, cols |-> <<>>]
Moved == [st |-> 2, n |-> 0, cols |-> <<>>]
Holds(n, c) == [st |-> 1, n |-> n, cols |-> c]

Init == own = [o \in 0..2 |-> IF o = 0 THEN Holds(0, <<>>) ELSE None] /\ ev = [op |-> "load", x |-> <<>>]
Ev(op, x) == ev' = [op |-> op, x |-> x]
Put(o, b) == own' = [own EXCEPT ![o] = b]
Src == own[0]
Used(c) == {c[i][1] : i \in 1..Len(c)}

----------------------------------------------------------------------------
\* the ranges
SrcRows(n)       == Src.cols = <<>> /\ Src.n # n /\ Put(0, Holds(n, <<>>)) /\ Ev("rows", <<n>>)
SrcPush(a, k, s) == /\ Len(Src.cols) < MaxCols /\ a \notin Used(Src.cols)
                    /\ Put(0, [Src EXCEPT !.cols = Append(@, <<a, k, s>>)]) /\ Ev("push", <<a, k, s>>)
SrcPop           == Src.cols # <<>> /\ Put(0, [Src EXCEPT !.cols = SubSeq(@, 1, Len(@) - 1)]) /\ Ev("pop", <<>>)
SrcName(i, a)    == /\ i <= Len(Src.cols) /\ a \notin Used(Src.cols)
                    /\ Put(0, [Src EXCEPT !.cols[i][1] = a]) /\ Ev("name", <<i, a>>)
SrcCol(i, k, s)  == /\ i <= Len(Src.cols) /\ <<Src.cols[i][2], Src.cols[i][3]>> # <<k, s>>
                    /\ Put(0, [Src EXCEPT !.cols[i] = <<@[1], k, s>>]) /\ Ev("col", <<i, k, s>>)
\* the batches; whatever was there is destroyed first
Make(b)      == b \in Batches /\ Put(b, Src) /\ Ev("make", <<b>>)
MakeTake(b)  == b \in Batches /\ own' = [own EXCEPT ![b] = Src, ![0] = Holds(Src.n, <<>>)] /\ Ev("take", <<b>>)
Live(b)      == b \in Batches /\ own[b].st = 1
There(b)     == b \in Batches /\ own[b].st # 0
CopyTo(b, d) == b # d /\ Live(b) /\ d \in Batches /\ Put(d, own[b]) /\ Ev("copy", <<b, d>>)
MoveTo(b, d) == b # d /\ Live(b) /\ d \in Batches /\ own' = [own EXCEPT ![d] = own[b], ![b] = Moved] /\ Ev("move", <<b, d>>)
Assign(b, d) == Live(b) /\ There(d) /\ Put(d, own[b]) /\ Ev("assign", <<b, d>>)
MAssign(b, d) == b # d /\ Live(b) /\ There(d) /\ own' = [own EXCEPT ![d] = own[b], ![b] = Moved] /\ Ev("massign", <<b, d>>)
Swap(b, d)   == b < d /\ Live(b) /\ Live(d) /\ own' = [own EXCEPT ![d] = own[b], ![b] = own[d]] /\ Ev("swap", <<b, d>>)
Drop(b)      == There(b) /\ Put(b, None) /\ Ev("drop", <<b>>)

Next ==
  \/ SrcPop
  \/ \E n \in Rows : SrcRows(n)
  \/ \E a \in Names, k \in Kinds, s \in Seeds : SrcPush(a, k, s)
  \/ \E i \in 1..MaxCols, a \in Names : SrcName(i, a)
  \/ \E i \in 1..MaxCols, k \in Kinds, s \in Seeds : SrcCol(i, k, s)
  \/ \E b \in Batches : Make(b) \/ MakeTake(b) \/ Drop(b)
  \/ \E b \in Batches, d \in Batches : CopyTo(b, d) \/ MoveTo(b, d) \/ Assign(b, d) \/ MAssign(b, d) \/ Swap(b, d)
Spec == Init /\ [][Next]_vars
View == own

----------------------------------------------------------------------------
\* what is seen; -1 is a null
Content(k, n, s) == [i \in 1..n |-> LET v == (s + i) % 4 IN IF v = 3 THEN -1 ELSE v]
Column(o, i) == LET c == own[o].cols[i] IN <<c[2]>> \o Content(c[2], own[o].n, c[3])
Columns(o) == [i \in 1..Len(own[o].cols) |-> Column(o, i)]
NamesOf(o) == [i \in 1..Len(own[o].cols) |-> own[o].cols[i][1]]
\* 0 if there is none
Where(o, a) == IF a \in Used(own[o].cols) THEN CHOOSE i \in 1..Len(own[o].cols) : own[o].cols[i][1] = a ELSE 0
See(b) == IF own[b].st # 1 THEN [st |-> own[b].st]
          ELSE [st |-> 1, names |-> NamesOf(b), cols |-> Columns(b), nc |-> Len(own[b].cols),
                nr |-> IF own[b].cols = <<>> THEN 0 ELSE own[b].n,
                at |-> [a \in 1..4 |-> Where(b, a - 1)]]
Bool(b) == IF b THEN 1 ELSE 0
Same(b, d) == IF own[b].st # 1 \/ own[d].st # 1 THEN -1 ELSE Bool(NamesOf(b) = NamesOf(d) /\ Columns(b) = Columns(d))
Obs == [src |-> [names |-> NamesOf(0), cols |-> Columns(0)],
        one |-> See(1), two |-> See(2),
        eq |-> <<<<Same(1, 1), Same(1, 2)>>, <<Same(2, 1), Same(2, 2)>>>>]
Matches(o, e) == o = e

Cell(o, i) == IF i <= Len(own[o].cols) THEN own[o].cols[i] ELSE <<0, 0, 0>>
Dump3(o) == <<own[o].st, own[o].n, Len(own[o].cols)>> \o Cell(o, 1) \o Cell(o, 2) \o Cell(o, 3)
Dump == Dump3(0) \o Dump3(1) \o Dump3(2)
Block(x, o) == LET at == 12 * o IN
  [st |-> x[at + 1], n |-> x[at + 2],
   cols |-> [i \in 1..x[at + 3] |-> <<x[at + 1 + 3 * i], x[at + 2 + 3 * i], x[at + 3 + 3 * i]>>]]
Load(x) == own' = [o \in 0..2 |-> Block(x, o)] /\ Ev("load", x)

----------------------------------------------------------------------------
TypeOK == \A o \in 0..2 : /\ own[o].st \in 0..2
                          /\ Cardinality(Used(own[o].cols)) = Len(own[o].cols)
                          /\ own[o].st # 1 => own[o].cols = <<>>
\* looking a name up gives the position at which it stands, and only names held are found
Lookup == \A b \in Batches : own[b].st = 1 =>
            /\ \A i \in 1..Len(own[b].cols) : Where(b, own[b].cols[i][1]) = i
            /\ \A a \in AllNames : (Where(b, a) = 0) = (a \notin Used(own[b].cols))
\* batches never change because the ranges or another batch do
Independent == [][/\ ev'.op \in {"rows", "push", "pop", "name", "col"} => own'[1] = own[1] /\ own'[2] = own[2]
                  /\ ev'.op \in {"make", "copy", "assign"} => \A o \in 0..2 : o # ev'.x[Len(ev'.x)] => own'[o] = own[o]]_vars

Step(op, x) ==
  CASE op = "load" -> Load(x)
    [] op = "rows" -> SrcRows(x[1])
    [] op = "push" -> SrcPush(x[1], x[2], x[3])
    [] op = "pop" -> SrcPop
    [] op = "name" -> SrcName(x[1], x[2])
    [] op = "col" -> SrcCol(x[1], x[2], x[3])
    [] op = "make" -> Make(x[1])
    [] op = "take" -> MakeTake(x[1])
    [] op = "copy" -> CopyTo(x[1], x[2])
    [] op = "move" -> MoveTo(x[1], x[2])
    [] op = "assign" -> Assign(x[1], x[2])
    [] op = "massign" -> MAssign(x[1], x[2])
    [] op = "swap" -> Swap(x[1], x[2])
    [] op = "drop" -> Drop(x[1])
=============================================================================
