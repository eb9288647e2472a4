---------------------------- MODULE BuildMachine ----------------------------
(* The builder.  A value of a nested C++ type is handed over element after   *)
(* element; after every step an array has been built from what there is.     *)
(*                                                                           *)
(* Types (of elements)              Values                                   *)
(*   <<"p", format, width>> scalar    its bytes                              *)
(*   <<"b">>           string         its bytes                              *)
(*   <<"l", T>>        range          sequence of values                     *)
(*   <<"f", n, T>>     fixed range    sequence of n values                   *)
(*   <<"t", Ts>>       tuple          sequence of one value of each type     *)
(*   <<"v", Ts>>       variant        <<alternative (from 0), value>>        *)
(*   <<"n", T>>        nullable       <<0 or 1, value>>; 0: null, the value  *)
(*                                    is what the null hides                 *)
(*   <<"d", T>>, <<"r", T>>  dict_encode, run_end_encode      as T           *)
(* Logical is what the elements are, Layout the documented layout.  Build    *)
(* constructs the columns of an array in the format of ArrowFormat; that     *)
(* nothing is lost on the way is the invariant Lossless.                     *)
EXTENDS ArrowFormat, SequencesExt

VARIABLES type,   \* of the whole range:  <<"l", T>>, <<"d", <<"l", T>>>> or <<"r", <<"l", T>>>>
          large,  \* large lists were asked for
          val,    \* the elements given so far
          ev
vars == <<type, large, val, ev>>

Wrap == {"n", "d", "r"}
RECURSIVE Strip(_)
Strip(T) == IF T[1] \in Wrap THEN Strip(T[2]) ELSE T
\* the encoding asked for by a type: that of the array over its ranges or columns
RECURSIVE EncOf(_)
EncOf(T) == CASE T[1] = "d" -> "d" [] T[1] = "r" -> "r" [] T[1] = "n" -> EncOf(T[2]) [] OTHER -> ""

RECURSIVE IsNull(_, _)
IsNull(T, v) == CASE T[1] = "n" -> IF v[1] = 0 THEN TRUE ELSE IsNull(T[2], v[2])
                  [] T[1] \in {"d", "r"} -> IsNull(T[2], v)
                  [] OTHER -> FALSE
RECURSIVE Pay(_, _)
Pay(T, v) == CASE T[1] = "n" -> Pay(T[2], v[2]) [] T[1] \in {"d", "r"} -> Pay(T[2], v) [] OTHER -> v
RECURSIVE Nullable(_)
Nullable(T) == CASE T[1] = "n" -> TRUE [] T[1] \in {"d", "r"} -> Nullable(T[2]) [] OTHER -> FALSE

RECURSIVE Typed(_, _)
Typed(T, v) == LET S == Strip(T) x == Pay(T, v) IN
  CASE S[1] = "p" -> Len(x) = S[3] /\ \A i \in 1..Len(x) : x[i] \in 0..255
    [] S[1] = "b" -> \A i \in 1..Len(x) : x[i] \in 0..255
    [] S[1] = "l" -> \A i \in 1..Len(x) : Typed(S[2], x[i])
    [] S[1] = "f" -> Len(x) = S[2] /\ \A i \in 1..Len(x) : Typed(S[3], x[i])
    [] S[1] = "t" -> Len(x) = Len(S[2]) /\ \A i \in 1..Len(x) : Typed(S[2][i], x[i])
    [] S[1] = "v" -> Len(x) = 2 /\ x[1] \in 0..(Len(S[2]) - 1) /\ Typed(S[2][x[1] + 1], x[2])

RECURSIVE Logical(_, _)
Logical(T, v) ==
  IF IsNull(T, v) THEN NullV ELSE
  LET S == Strip(T) x == Pay(T, v) IN
  CASE S[1] = "p" -> <<"p", S[2], x>>
    [] S[1] = "b" -> <<"b", "u", x>>
    [] S[1] = "l" -> <<"l", [i \in 1..Len(x) |-> Logical(S[2], x[i])]>>
    [] S[1] = "f" -> <<"l", [i \in 1..Len(x) |-> Logical(S[3], x[i])]>>
    [] S[1] = "t" -> <<"s", [i \in 1..Len(x) |-> Logical(S[2][i], x[i])]>>
    [] S[1] = "v" -> Logical(S[2][x[1] + 1], x[2])
Elements(T, vs) == [i \in 1..Len(vs) |-> Logical(T, vs[i])]

ListF(lg) == IF lg THEN "+L" ELSE "+l"
FixedF(n) == "+w:" \o ToString(n)
RECURSIVE Ids(_)
Ids(n) == IF n = 1 THEN "0" ELSE Ids(n - 1) \o "," \o ToString(n - 1)
UnionF(n) == "+us:" \o Ids(n)

Leaf(f, k) == <<f, <<>>, <<>>, k>>
RECURSIVE Layout(_, _, _)
Layout(T, e, lg) ==
  LET S == Strip(T)
      L(U, d) == Layout(U, d, lg) IN
  CASE e = "d" -> <<"L", <<>>, <<L(T, "")>>, "dict">>
    [] e = "r" -> <<"+r", <<Leaf("L", "prim"), L(T, "")>>, <<>>, "ree">>
    [] S[1] = "p" -> Leaf(S[2], "prim")
    [] S[1] = "b" -> Leaf("u", "str")
    [] S[1] = "l" -> <<ListF(lg), <<L(S[2], EncOf(T))>>, <<>>, "list">>
    [] S[1] = "f" -> <<FixedF(S[2]), <<L(S[3], EncOf(T))>>, <<>>, "fsl">>
    [] S[1] = "t" -> <<"+s", [i \in 1..Len(S[2]) |-> L(S[2][i], EncOf(S[2][i]))], <<>>, "struct">>
    [] S[1] = "v" -> <<UnionF(Len(S[2])), [i \in 1..Len(S[2]) |-> L(S[2][i], EncOf(S[2][i]))], <<>>, "su">>

----------------------------------------------------------------------------
(* Construction of the columns *)
Flat(ss) == FlattenSeq(ss)
LEBytes(v, w) == [i \in 1..w |-> IF i > 3 THEN 0 ELSE (v \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE 65536)) % 256]
Words(ns, w) == Flat([i \in 1..Len(ns) |-> LEBytes(ns[i], w)])
BitAt(ok, i) == IF i <= Len(ok) THEN IF ok[i] THEN 1 ELSE 0 ELSE 0
BitBytes(ok) == [b \in 1..((Len(ok) + 7) \div 8) |->
  LET t(k) == BitAt(ok, 8 * (b - 1) + k + 1) IN
  t(0) + 2 * t(1) + 4 * t(2) + 8 * t(3) + 16 * t(4) + 32 * t(5) + 64 * t(6) + 128 * t(7)]
Buf(d) == [p |-> 1, d |-> d]
RECURSIVE Sums(_, _)
Sums(ns, s) == IF ns = <<>> THEN <<s>> ELSE <<s>> \o Sums(Tail(ns), s + Head(ns))

Node(f, k, w, n, ids, len, nc, bufs, ch, di) ==
  [f |-> f, k |-> k, w |-> w, n |-> n, ids |-> ids, len |-> len, nc |-> nc, off |-> 0, bufs |-> bufs, ch |-> ch, di |-> di]

\* some value of a type: what fills the children of a union that are not selected
RECURSIVE Blank(_)
Blank(T) == CASE T[1] = "p" -> [i \in 1..T[3] |-> 0]
            [] T[1] \in {"b", "l"} -> <<>>
            [] T[1] = "f" -> [i \in 1..T[2] |-> Blank(T[3])]
            [] T[1] = "t" -> [i \in 1..Len(T[2]) |-> Blank(T[2][i])]
            [] T[1] = "v" -> <<0, Blank(T[2][1])>>
            [] T[1] = "n" -> <<0, Blank(T[2])>>
            [] OTHER -> Blank(T[2])

\* positions of the first occurrences of the distinct elements; of the starts of runs
Firsts(el) == SelectSeq([i \in 1..Len(el) |-> i], LAMBDA i : \A j \in 1..(i - 1) : el[j] # el[i])
Starts(el) == SelectSeq([i \in 1..Len(el) |-> i], LAMBDA i : IF i = 1 THEN TRUE ELSE el[i - 1] # el[i])
At(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

RECURSIVE Col(_, _, _, _)
Col(T, e, lg, vs) ==
  LET S == Strip(T)
      n == Len(vs)
      x == [i \in 1..n |-> Pay(T, vs[i])]
      el == Elements(T, vs)
      ok == [i \in 1..n |-> ~IsNull(T, vs[i])]
      nc == Cardinality({i \in 1..n : ~ok[i]})
      bm == Buf(BitBytes(ok)) IN
  CASE e = "d" ->
         LET fs == Firsts(el)
             key(i) == CHOOSE k \in 1..Len(fs) : el[fs[k]] = el[i] IN
         Node("L", "dict", 8, 0, <<>>, n, 0, <<Buf(BitBytes([i \in 1..n |-> TRUE])), Buf(Words([i \in 1..n |-> key(i) - 1], 8))>>, <<>>,
              <<Col(T, "", lg, [k \in 1..Len(fs) |-> vs[fs[k]]])>>)
    [] e = "r" ->
         LET st == Starts(el)
             ends == [k \in 1..Len(st) |-> IF k = Len(st) THEN n ELSE st[k + 1] - 1] IN
         Node("+r", "ree", 0, 0, <<>>, n, 0, <<>>,
              <<Node("L", "prim", 8, 0, <<>>, Len(st), 0, <<Buf(BitBytes([k \in 1..Len(st) |-> TRUE])), Buf(Words(ends, 8))>>, <<>>, <<>>),
                Col(T, "", lg, [k \in 1..Len(st) |-> vs[st[k]]])>>, <<>>)
    [] S[1] = "p" -> Node(S[2], "prim", S[3], 0, <<>>, n, nc, <<bm, Buf(Flat(x))>>, <<>>, <<>>)
    [] S[1] = "b" -> Node("u", "str", 4, 0, <<>>, n, nc,
                          <<bm, Buf(Words(Sums([i \in 1..n |-> Len(x[i])], 0), 4)), Buf(Flat(x))>>, <<>>, <<>>)
    [] S[1] = "l" -> LET w == IF lg THEN 8 ELSE 4 IN
                     Node(ListF(lg), "list", w, 0, <<>>, n, nc, <<bm, Buf(Words(Sums([i \in 1..n |-> Len(x[i])], 0), w))>>,
                          <<Col(S[2], EncOf(T), lg, Flat(x))>>, <<>>)
    [] S[1] = "f" -> Node(FixedF(S[2]), "fsl", 0, S[2], <<>>, n, nc, <<bm>>, <<Col(S[3], EncOf(T), lg, Flat(x))>>, <<>>)
    [] S[1] = "t" -> Node("+s", "struct", 0, 0, <<>>, n, nc, <<bm>>,
                          [c \in 1..Len(S[2]) |-> Col(S[2][c], EncOf(S[2][c]), lg, [i \in 1..n |-> x[i][c]])], <<>>)
    [] S[1] = "v" -> Node(UnionF(Len(S[2])), "su", 0, 0, [c \in 1..Len(S[2]) |-> c - 1], n, 0, <<Buf([i \in 1..n |-> x[i][1]])>>,
                          [c \in 1..Len(S[2]) |-> Col(S[2][c], EncOf(S[2][c]), lg,
                             [i \in 1..n |-> IF x[i][1] = c - 1 THEN x[i][2] ELSE Blank(S[2][c])])], <<>>)

ElemType == Strip(type)[2]
Built == Col(ElemType, EncOf(type), large, val)
Wanted == Elements(ElemType, val)
WantedLayout == Layout(ElemType, EncOf(type), large)

\* Compactness: what is encoded is stored once.  Left open are NaN (equal to
\* nothing) and nulls within unions (those of different alternatives differ).
RECURSIVE HasNullV(_)
HasNullV(v) == CASE v = NullV -> TRUE
                 [] v[1] \in {"l", "s"} -> \E i \in 1..Len(v[2]) : HasNullV(v[2][i])
                 [] OTHER -> FALSE
RECURSIVE Exotic(_)
Exotic(v) == CASE v[1] = "p" -> v[2] \in {"f", "g"} /\ v[3][Len(v[3])] \in {127, 255}
               [] v[1] \in {"l", "s"} -> \E i \in 1..Len(v[2]) : Exotic(v[2][i])
               [] OTHER -> FALSE
RECURSIVE HasUnion(_)
HasUnion(a) == \/ a.k \in {"su", "du"}
               \/ \E c \in 1..Len(a.ch) : HasUnion(a.ch[c])
Sharp(a, v) == ~Exotic(v) /\ ~(HasUnion(a) /\ HasNullV(v))
RECURSIVE Compact(_)
Compact(a) ==
  /\ a.k = "dict" =>
       LET d == a.di[1]
           s == SelectSeq(Decode(d), LAMBDA v : Sharp(d, v)) IN
       Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
  /\ a.k = "ree" =>
       LET d == a.ch[2]
           s == Decode(d) IN
       \A i \in 2..Len(s) : Sharp(d, s[i]) => s[i - 1] # s[i]
  /\ \A c \in 1..Len(a.ch) : Compact(a.ch[c])

----------------------------------------------------------------------------
Idle == <<>>
Init == type = Idle /\ large = FALSE /\ val = <<>> /\ ev = [op |-> "init"]
Begin(T, lg) == type' = T /\ large' = lg /\ val' = <<>>
Append1(v) == val' = Append(val, v) /\ UNCHANGED <<type, large>>
\* a whole value at once
Give(T, lg, vs) == type' = T /\ large' = lg /\ val' = vs

Lossless == type # Idle => /\ Decode(Built) = Wanted
                           /\ TypeOf(Built) = WantedLayout
                           /\ WF(Built, TRUE)
                           /\ Compact(Built)
=============================================================================
