--------------------------- MODULE RejectMachine ---------------------------
(* Operations that are documented to fail with an exception, interleaved     *)
(* with the ones that succeed on the same objects: a bitset and a view on    *)
(* bits, a buffer, the columns of a record batch, nullables, and arrays that *)
(* become the children of other arrays.  A rejected operation reports the    *)
(* documented kind of exception and changes nothing.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, MaxBits, Vals, Names, MaxKids

VARIABLES
  bits,   \* <<a bitset, a view on bits>>
  buf,    \* a buffer
  cols,   \* names of the columns of a record batch
  nul,    \* nullables <<has a value, value>>: owning an integer, owning a string, referring
  kids,   \* arrays <<who owns the array, who owns the schema, type, length>>
  ev
vars == <<bits, buf, cols, nul, kids, ev>>

On(o) == o \in Ops
Ev(o, x) == ev' = [op |-> o, x |-> x]
B(b) == IF b THEN 1 ELSE 0

\* kinds of exceptions
Fine == 0   OutOfRange == 1   LengthError == 2   NoValue == 3   RuntimeError == 4   InvalidArgument == 5

Init == /\ bits = <<<<>>, <<>>>> /\ buf = <<>> /\ cols = <<>> /\ nul = <<<<0, 0>>, <<0, 0>>, <<0, 0>>>> /\ kids = <<>>
        /\ ev = [op |-> "init", x |-> <<>>]

\* positions: from 0, or  -1 the largest, -2 the middle of the range of sizes,
\* -3 2^32 after the end, -4 the end, -5 the last one
Inside(c, n) == IF c >= 0 THEN c < n ELSE c = -5 /\ n > 0
Place(c, n) == IF c >= 0 THEN c + 1 ELSE n

SetBits(i, b) == On("bits") /\ bits' = [bits EXCEPT ![i] = b] /\ UNCHANGED <<buf, cols, nul, kids>> /\ Ev("bits", <<i>> \o b)
\* k: read from a constant one, read, write
At(i, k, c, w) ==
  /\ On("at")
  /\ bits' = IF k = 2 /\ Inside(c, Len(bits[i])) THEN [bits EXCEPT ![i][Place(c, Len(bits[i]))] = w] ELSE bits
  /\ UNCHANGED <<buf, cols, nul, kids>> /\ Ev("at", <<i, k, c, w>>)

SetBuf(v) == On("buf") /\ buf' = v /\ UNCHANGED <<bits, cols, nul, kids>> /\ Ev("buf", v)
\* reserve, construction (two ways), resizing (two ways), insertion of copies: of c, where
\* -1 is the largest number, -2 the middle of the range, -3 one more than there may be
Big(k, c) == On("big") /\ (k = 9 => c = -3) /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("big", <<k, c>>)
\* these succeed
Room(c) == On("big") /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("room", <<c>>)

SetCols(c) == On("cols") /\ cols' = c /\ UNCHANGED <<bits, buf, nul, kids>> /\ Ev("cols", c)
Col(k, n) == On("cols") /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("col", <<k, n>>)

SetNul(i, f, v) == On("nul") /\ nul' = [nul EXCEPT ![i] = <<f, v>>] /\ UNCHANGED <<bits, buf, cols, kids>> /\ Ev("nul", <<i, f, v>>)
Value(i, k) == On("nul") /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("value", <<i, k>>)

\* flags of a schema, by the positions of their bits
Flags(s) == On("flags") /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("flags", s)
Type(t) == On("type") /\ UNCHANGED <<bits, buf, cols, nul, kids>> /\ Ev("type", <<t>>)

\* modes: 0 made by the library, 1 both structures given away by somebody else,
\* 2 the schema lent, 3 both lent
AddKid(m, t, n) == /\ On("kid") /\ Len(kids) < MaxKids /\ kids' = Append(kids, <<m, t, n>>)
                   /\ UNCHANGED <<bits, buf, cols, nul>> /\ Ev("kid", <<m, t, n>>)
Clear == On("kid") /\ kids # <<>> /\ kids' = <<>> /\ UNCHANGED <<bits, buf, cols, nul>> /\ Ev("clear", <<>>)
Lent(i) == kids[i][1] \in {2, 3}
\* Extraction: both structures (0), the array (1), the schema (2); then it is released.
Extract(i, k) ==
  /\ On("kid") /\ i <= Len(kids)
  /\ LET no == (k \in {0, 2} /\ Lent(i)) \/ (k = 1 /\ kids[i][1] = 3) IN
     /\ kids' = IF no THEN kids ELSE SubSeq(kids, 1, i - 1) \o SubSeq(kids, i + 1, Len(kids))
     /\ Ev("extract", <<i, k, B(no)>>)
  /\ UNCHANGED <<bits, buf, cols, nul>>
\* An array made of all of them; it is read and destroyed.  k: 0 dense union,
\* 1 sparse union, both with m type ids; 2 struct; 3 list; 4 large list;
\* 5 list view; 6 large list view; 7 fixed size list; 8 dictionary; 9 run-end encoding
\* (lengths in the first one, values in the second one)
RunTypes == {1, 2, 3}
Alone == 3..8
Possible(k, m) ==
  /\ CASE k \in {0, 1} -> Len(kids) > 0 /\ \A i \in 1..Len(kids) : kids[i][3] = kids[1][3]
       [] k = 2 -> Len(kids) > 0 /\ \A i \in 1..Len(kids) : kids[i][3] = kids[1][3]
       [] k \in Alone -> Len(kids) = 1
       [] k = 9 -> Len(kids) = 2 /\ kids[1][3] = kids[2][3]
  /\ k \notin {0, 1} => m = 0
Error(k, m) ==
  CASE k \in {0, 1} /\ m \notin {0, Len(kids)} -> {InvalidArgument}
                      \cup (IF \E i \in 1..Len(kids) : Lent(i) THEN {RuntimeError} ELSE {})
    [] k = 9 /\ kids[1][2] \notin RunTypes -> {InvalidArgument} \cup (IF \E i \in 1..2 : Lent(i) THEN {RuntimeError} ELSE {})
    [] OTHER -> IF \E i \in 1..Len(kids) : Lent(i) THEN {RuntimeError} ELSE {Fine}
Combine(k, m) == /\ On("kid") /\ Possible(k, m)
                 /\ kids' = IF Error(k, m) = {Fine} THEN <<>> ELSE kids
                 /\ UNCHANGED <<bits, buf, cols, nul>> /\ Ev("combine", <<k, m>> \o (IF Error(k, m) = {Fine} THEN <<kids[1][3]>> ELSE <<-1>>))

Positions == -5..3
SomeBits == {<<>>, <<1>>} \cup {[i \in 1..n |-> B(i % 2 = 0)] : n \in {MaxBits, MaxBits - 1}}
SomeNames == {<<>>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Next ==
  \/ \E i \in 1..2, b \in SomeBits : SetBits(i, b)
  \/ \E i \in 1..2, k \in 0..2, c \in Positions, w \in {0, 1} : (k # 2 => w = 0) /\ At(i, k, c, w)
  \/ \E n \in 0..3, v \in Vals : SetBuf([i \in 1..n |-> v + i])
  \/ \E k \in 0..9, c \in {-1, -2, -3} : Big(k, c)
  \/ \E c \in 0..3 : Room(c)
  \/ \E c \in SomeNames : (IF Len(c) < 2 THEN TRUE ELSE c[1] # c[2]) /\ SetCols(c)
  \/ \E k \in 0..1, n \in Names : Col(k, n)
  \/ \E i \in 1..3, f \in {0, 1}, v \in Vals : SetNul(i, f, v)
  \/ \E i \in 1..3, k \in 0..3 : Value(i, k)
  \/ \E a \in 0..63, s \in 0..7 : Flags((IF s % 2 = 1 THEN <<0>> ELSE <<>>) \o (IF (s \div 2) % 2 = 1 THEN <<1>> ELSE <<>>)
                                        \o (IF s \div 4 = 1 THEN <<2>> ELSE <<>>) \o (IF a > 2 THEN <<a>> ELSE <<>>))
  \/ \E t \in 0..32 : Type(t)
  \/ \E m \in 0..3, t \in 0..4, n \in 0..2 : AddKid(m, t, n)
  \/ Clear
  \/ \E i \in 1..MaxKids, k \in 0..2 : Extract(i, k)
  \/ \E k \in 0..9, m \in 0..(MaxKids + 1) : Combine(k, m)
Spec == Init /\ [][Next]_vars
View == <<bits, buf, cols, nul, kids>>

----------------------------------------------------------------------------
\* the formats a type is written as
FormatOf == (0 :> "n" @@ 1 :> "b" @@ 2 :> "C" @@ 3 :> "c" @@ 4 :> "S" @@ 5 :> "s" @@ 6 :> "I" @@ 7 :> "i" @@ 8 :> "L" @@ 9 :> "l"
             @@ 10 :> "e" @@ 11 :> "f" @@ 12 :> "g" @@ 13 :> "u" @@ 14 :> "z" @@ 18 :> "tDm" @@ 19 :> "+l" @@ 20 :> "+L")
IndexOf(s, n) == IF \E i \in 1..Len(s) : s[i] = n THEN CHOOSE i \in 1..Len(s) : s[i] = n ELSE 0
\* what the last call did: an exception, a value
Did ==
  LET x == ev.x IN
  CASE ev.op = "at" -> LET s == bits[x[1]] IN IF Inside(x[3], Len(s)) THEN <<Fine, s[Place(x[3], Len(s))]>> ELSE <<OutOfRange, 0>>
    [] ev.op = "big" -> <<LengthError, 0>>
    [] ev.op = "col" -> IF IndexOf(cols, x[2]) = 0 THEN <<OutOfRange, 0>> ELSE <<Fine, IndexOf(cols, x[2])>>
    [] ev.op = "value" -> IF nul[x[1]][1] = 0 THEN <<NoValue, 0>> ELSE <<Fine, nul[x[1]][2]>>
    [] ev.op = "flags" -> IF \E i \in 1..Len(x) : x[i] > 2 THEN <<RuntimeError, 0>> ELSE <<Fine, Len(x)>>
    [] ev.op = "type" -> IF x[1] \in DOMAIN FormatOf THEN <<Fine, 0>> ELSE <<RuntimeError, 0>>
    [] ev.op = "extract" -> IF x[3] = 1 THEN <<RuntimeError, 0>> ELSE <<Fine, 0>>
    [] OTHER -> <<Fine, 0>>
Obs == [bits |-> bits, buf |-> buf, cols |-> cols, nul |-> nul, kids |-> kids, 
        \* the size of what was made; several reasons to refuse may come together
        did |-> IF ev.op = "combine" /\ ev.x[3] < 0 THEN {<<k, 0>> : k \in Error(ev.x[1], ev.x[2])}
                ELSE IF ev.op = "combine" THEN {<<Fine, ev.x[3]>>} ELSE {Did},
        text |-> IF ev.op = "type" /\ ev.x[1] \in DOMAIN FormatOf THEN FormatOf[ev.x[1]] ELSE "",
        lost |-> 0, over |-> 0]
Matches(o, e) == e.did \in o.did /\ [o EXCEPT !.did = 0] = [e EXCEPT !.did = 0]

Put(s) == <<Len(s)>> \o s
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Dump == Put(bits[1]) \o Put(bits[2]) \o Put(buf) \o Put(cols) \o Flat(nul) \o <<Len(kids)>> \o Flat(kids)
\* the list at a, and the position after it
Get(x, a) == <<SubSeq(x, a + 1, a + x[a]), a + x[a] + 1>>
Load(x) ==
  LET p == Get(x, 1) q == Get(x, p[2]) r == Get(x, q[2]) s == Get(x, r[2]) a == s[2] IN
  /\ bits' = <<p[1], q[1]>> /\ buf' = r[1] /\ cols' = s[1]
  /\ nul' = [i \in 1..3 |-> <<x[a + 2 * i - 2], x[a + 2 * i - 1]>>]
  /\ kids' = [i \in 1..x[a + 6] |-> SubSeq(x, a + 4 + 3 * i, a + 6 + 3 * i)]
  /\ Ev("load", x)

TypeOK == /\ Len(bits[1]) <= MaxBits /\ Len(bits[2]) <= MaxBits /\ Len(buf) <= 3
          /\ \A i, j \in 1..Len(cols) : i # j => cols[i] # cols[j]
          /\ Len(kids) <= MaxKids
\* what is rejected changes nothing
Rejected == CASE ev.op \in {"at", "col", "value", "flags", "type"} -> Did[1] # Fine [] ev.op = "big" -> TRUE
              [] ev.op = "combine" -> ev.x[3] < 0 [] ev.op = "extract" -> ev.x[3] = 1 [] OTHER -> FALSE
Unchanged == [][Rejected' => View' = View]_vars

Step(op, x) ==
  CASE op = "load" -> Load(x)
    [] op = "bits" -> SetBits(x[1], Tail(x))
    [] op = "at" -> At(x[1], x[2], x[3], x[4])
    [] op = "buf" -> SetBuf(x)
    [] op = "big" -> Big(x[1], x[2])
    [] op = "room" -> Room(x[1])
    [] op = "cols" -> SetCols(x)
    [] op = "col" -> Col(x[1], x[2])
    [] op = "nul" -> SetNul(x[1], x[2], x[3])
    [] op = "value" -> Value(x[1], x[2])
    [] op = "flags" -> Flags(x)
    [] op = "type" -> Type(x[1])
    [] op = "kid" -> AddKid(x[1], x[2], x[3])
    [] op = "clear" -> Clear
    [] op = "extract" -> Extract(x[1], x[2]) /\ ev'.x = x
    [] op = "combine" -> Combine(x[1], x[2]) /\ ev'.x = x
    [] OTHER -> FALSE
=============================================================================
