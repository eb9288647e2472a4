---------------------------- MODULE ArrowFormat ----------------------------
(* The meaning of an ArrowArray / ArrowSchema pair, after the Arrow columnar *)
(* format and the Arrow C data interface.                                    *)
(*                                                                           *)
(* A pair is a record  [f, k, w, n, ids, len, nc, off, bufs, ch, di, nm, fl] *)
(*   f     format string            k    layout (derived from f)             *)
(*   w     bytes per value, offset or key                                    *)
(*   n     size of fixed-size lists ids  type ids of a union                 *)
(*   bufs  buffers <<[p |-> 0 or 1, d |-> bytes]>>; p = 0 is a null pointer  *)
(*   ch    children                 di   <<dictionary>> or <<>>              *)
(*   nm    <<name>> or <<>>         fl   flags                               *)
(* The format string is parsed by the driver: TLC has no string operations.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NullV == <<"n">>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Byte(d, i) == d[i + 1]
Bit(d, i) == (Byte(d, i \div 8) \div Pow2[(i % 8) + 1]) % 2
\* little endian integers below 2^31; Small tells that the bytes hold one
LE(d, at, w) == LET b(i) == IF i < w THEN Byte(d, at + i) ELSE 0 IN
                b(0) + 256 * b(1) + 65536 * b(2) + (IF w < 4 THEN 0 ELSE 16777216 * b(3))
Small(d, at, w) == /\ w < 4 \/ Byte(d, at + 3) < 128
                   /\ \A i \in 4..(w - 1) : Byte(d, at + i) = 0

Layouts == {"null", "prim", "str", "strv", "list", "lview", "fsl", "struct", "du", "su", "ree", "dict"}
HasValidity(k) == k \notin {"null", "du", "su", "ree"}

\* i is a position in the array, counted from 0; the offset is added here
Valid(r, i) == \/ r.bufs[1].p = 0
               \/ Bit(r.bufs[1].d, r.off + i) = 1

\* which child of a union a type id designates
ChildOf(r, id) == CHOOSE c \in 1..Len(r.ids) : r.ids[c] = id

RunEnd(c, j) == LE(c.bufs[2].d, (c.off + j) * c.w, c.w)
RECURSIVE RunOf(_, _, _)
RunOf(c, p, j) == IF p < RunEnd(c, j) THEN j ELSE RunOf(c, p, j + 1)

RECURSIVE Elem(_, _)
Elem(r, i) ==
  LET p == r.off + i IN
  CASE r.k = "null" -> NullV
    [] r.k = "ree"  -> Elem(r.ch[2], RunOf(r.ch[1], p, 0))
    [] r.k = "su"   -> Elem(r.ch[ChildOf(r, Byte(r.bufs[1].d, p))], p)
    [] r.k = "du"   -> Elem(r.ch[ChildOf(r, Byte(r.bufs[1].d, p))], LE(r.bufs[2].d, 4 * p, 4))
    [] HasValidity(r.k) /\ ~Valid(r, i) -> NullV
    [] r.k = "prim" -> <<"p", r.f, SubSeq(r.bufs[2].d, p * r.w + 1, p * r.w + r.w)>>
    [] r.k = "dict" -> Elem(r.di[1], LE(r.bufs[2].d, p * r.w, r.w))
    [] r.k = "str"  -> <<"b", r.f, SubSeq(r.bufs[3].d, LE(r.bufs[2].d, p * r.w, r.w) + 1,
                                                       LE(r.bufs[2].d, (p + 1) * r.w, r.w))>>
    [] r.k = "strv" -> LET d == r.bufs[2].d
                           sz == LE(d, 16 * p, 4) IN
                       IF sz <= 12 THEN <<"b", r.f, SubSeq(d, 16 * p + 5, 16 * p + 4 + sz)>>
                       ELSE LET bi == LE(d, 16 * p + 8, 4)
                                o == LE(d, 16 * p + 12, 4) IN
                            <<"b", r.f, SubSeq(r.bufs[3 + bi].d, o + 1, o + sz)>>
    [] r.k = "list" -> LET o1 == LE(r.bufs[2].d, p * r.w, r.w)
                           o2 == LE(r.bufs[2].d, (p + 1) * r.w, r.w) IN
                       <<"l", [j \in 1..(o2 - o1) |-> Elem(r.ch[1], o1 + j - 1)]>>
    [] r.k = "lview" -> LET o == LE(r.bufs[2].d, p * r.w, r.w)
                            sz == LE(r.bufs[3].d, p * r.w, r.w) IN
                        <<"l", [j \in 1..sz |-> Elem(r.ch[1], o + j - 1)]>>
    [] r.k = "fsl"  -> <<"l", [j \in 1..r.n |-> Elem(r.ch[1], p * r.n + j - 1)]>>
    [] r.k = "struct" -> <<"s", [c \in 1..Len(r.ch) |-> Elem(r.ch[c], p)]>>

Decode(r) == [i \in 1..r.len |-> Elem(r, i - 1)]

Nulls(r) == IF r.k = "null" THEN r.len
            ELSE Cardinality({i \in 0..(r.len - 1) : ~Valid(r, i)})

\* the datatype
RECURSIVE TypeOf(_)
TypeOf(r) == <<r.f, [c \in 1..Len(r.ch) |-> TypeOf(r.ch[c])], [c \in 1..Len(r.di) |-> TypeOf(r.di[c])], r.k>>

\* The same of an array whose children, or dictionary, have the elements vs;
\* r is the rest of it, with offset 0 (and, if run-end encoded, the run ends).
Compose(r, vs) ==
  [i1 \in 1..r.len |->
    LET i == i1 - 1 IN
    CASE r.k = "ree" -> vs[1][RunOf(r.ch[1], i, 0) + 1]
      [] r.k = "su"  -> vs[ChildOf(r, Byte(r.bufs[1].d, i))][i1]
      [] r.k = "du"  -> vs[ChildOf(r, Byte(r.bufs[1].d, i))][LE(r.bufs[2].d, 4 * i, 4) + 1]
      [] HasValidity(r.k) /\ ~Valid(r, i) -> NullV
      [] r.k = "dict" -> vs[1][LE(r.bufs[2].d, i * r.w, r.w) + 1]
      [] r.k = "list" -> <<"l", SubSeq(vs[1], LE(r.bufs[2].d, i * r.w, r.w) + 1, LE(r.bufs[2].d, i1 * r.w, r.w))>>
      [] r.k = "lview" -> LET o == LE(r.bufs[2].d, i * r.w, r.w) IN
                          <<"l", SubSeq(vs[1], o + 1, o + LE(r.bufs[3].d, i * r.w, r.w))>>
      [] r.k = "fsl" -> <<"l", SubSeq(vs[1], i * r.n + 1, i * r.n + r.n)>>
      [] r.k = "struct" -> <<"s", [c \in 1..Len(vs) |-> vs[c][i1]]>>]
TypeOfParts(r, ts) ==
  IF r.k = "dict" THEN <<r.f, <<>>, ts, r.k>>
  ELSE <<r.f, [c \in 1..Len(r.ch) |-> TypeOf(r.ch[c])] \o ts, <<>>, r.k>>

----------------------------------------------------------------------------
(* Conformance.  exact: null counts have to be those of the bitmaps (or -1). *)
Holds(b, n) == IF b.p = 0 THEN n <= 0 ELSE Len(b.d) >= n

BufCount(r) == CASE r.k \in {"null", "ree"} -> Len(r.bufs) = 0
                 [] r.k \in {"fsl", "struct", "su"} -> Len(r.bufs) = 1
                 [] r.k \in {"prim", "list", "du", "dict"} -> Len(r.bufs) = 2
                 [] r.k \in {"str", "lview"} -> Len(r.bufs) = 3
                 [] r.k = "strv" -> Len(r.bufs) >= 3
ChildCount(r) == CASE r.k \in {"list", "lview", "fsl"} -> Len(r.ch) = 1
                   [] r.k = "ree" -> Len(r.ch) = 2
                   [] r.k \in {"du", "su"} -> Len(r.ch) = Len(r.ids)
                   [] r.k = "struct" -> TRUE
                   [] OTHER -> Len(r.ch) = 0

Offsets(d, w, first, last, limit) ==
  /\ \A i \in first..last : Small(d, i * w, w)
  /\ \A i \in first..(last - 1) : LE(d, i * w, w) <= LE(d, (i + 1) * w, w)
  /\ LE(d, last * w, w) <= limit

RECURSIVE WF(_, _)
WF(r, exact) ==
  LET e == r.off + r.len                     \* one past the last physical position
      I == 0..(r.len - 1)
      V == {i \in I : Valid(r, i)}
  IN
  /\ r.k \in Layouts
  /\ r.len >= 0 /\ r.off >= 0 /\ r.nc >= -1
  /\ BufCount(r) /\ ChildCount(r)
  /\ Len(r.di) = (IF r.k = "dict" THEN 1 ELSE 0)
  /\ HasValidity(r.k) => /\ r.bufs[1].p = 0 \/ Len(r.bufs[1].d) * 8 >= e
                         /\ exact => r.nc \in {-1, Nulls(r)}
  /\ r.k = "null" /\ exact => r.nc \in {-1, r.len}
  /\ r.k \in {"prim", "dict"} => Holds(r.bufs[2], e * r.w)
  /\ r.k = "dict" => \A i \in V : /\ Small(r.bufs[2].d, (r.off + i) * r.w, r.w)
                                  /\ LE(r.bufs[2].d, (r.off + i) * r.w, r.w) < r.di[1].len
  /\ r.k = "str" => /\ e = 0 \/ Holds(r.bufs[2], (e + 1) * r.w)
                    /\ r.len > 0 => Offsets(r.bufs[2].d, r.w, r.off, e, Len(r.bufs[3].d))
  /\ r.k = "strv" => /\ Holds(r.bufs[2], 16 * e)
                     /\ Len(r.bufs[Len(r.bufs)].d) >= 8 * (Len(r.bufs) - 3)
                     /\ \A b \in 1..(Len(r.bufs) - 3) :
                          LE(r.bufs[Len(r.bufs)].d, 8 * (b - 1), 8) = Len(r.bufs[2 + b].d)
                     /\ \A i \in V : LET d == r.bufs[2].d
                                         p == r.off + i
                                         sz == LE(d, 16 * p, 4) IN
                          /\ Small(d, 16 * p, 4)
                          /\ sz <= 12 => \A j \in (4 + sz)..15 : Byte(d, 16 * p + j) = 0
                          /\ sz > 12 => LET bi == LE(d, 16 * p + 8, 4)
                                            o == LE(d, 16 * p + 12, 4) IN
                               /\ bi < Len(r.bufs) - 3
                               /\ o + sz <= Len(r.bufs[3 + bi].d)
                               /\ SubSeq(d, 16 * p + 5, 16 * p + 8) = SubSeq(r.bufs[3 + bi].d, o + 1, o + 4)
  /\ r.k = "list" => /\ e = 0 \/ Holds(r.bufs[2], (e + 1) * r.w)
                     /\ r.len > 0 => Offsets(r.bufs[2].d, r.w, r.off, e, r.ch[1].len)
  /\ r.k = "lview" => /\ Holds(r.bufs[2], e * r.w) /\ Holds(r.bufs[3], e * r.w)
                      /\ \A i \in I : LET q == (r.off + i) * r.w IN
                           /\ Small(r.bufs[2].d, q, r.w) /\ Small(r.bufs[3].d, q, r.w)
                           /\ LE(r.bufs[2].d, q, r.w) + LE(r.bufs[3].d, q, r.w) <= r.ch[1].len
  /\ r.k = "fsl" => r.ch[1].len >= e * r.n
  /\ r.k \in {"struct", "su"} => \A c \in 1..Len(r.ch) : r.ch[c].len >= e
  /\ r.k \in {"du", "su"} => /\ Holds(r.bufs[1], e)
                             /\ \A i \in I : \E c \in 1..Len(r.ids) : r.ids[c] = Byte(r.bufs[1].d, r.off + i)
                             /\ Cardinality({r.ids[c] : c \in 1..Len(r.ids)}) = Len(r.ids)
  /\ r.k = "du" => /\ Holds(r.bufs[2], 4 * e)
                   /\ \A i \in I : /\ Small(r.bufs[2].d, 4 * (r.off + i), 4)
                                   /\ LE(r.bufs[2].d, 4 * (r.off + i), 4)
                                        < r.ch[ChildOf(r, Byte(r.bufs[1].d, r.off + i))].len
  /\ r.k = "ree" => LET c == r.ch[1] IN
                    /\ c.k = "prim" /\ WF(c, exact) /\ Nulls(c) = 0
                    /\ \A j \in 0..(c.len - 1) : /\ Small(c.bufs[2].d, (c.off + j) * c.w, c.w)
                                                 /\ RunEnd(c, j) > (IF j = 0 THEN 0 ELSE RunEnd(c, j - 1))
                    /\ e > 0 => c.len > 0 /\ RunEnd(c, c.len - 1) >= e
                    /\ r.ch[2].len >= c.len
  /\ \A c \in 1..Len(r.ch) : WF(r.ch[c], exact)
  /\ \A c \in 1..Len(r.di) : WF(r.di[c], exact)

WellFormed(r) == WF(r, TRUE)

\* Whether the library reads it; why not (kinds of exceptions).  Layout "no"
\* is a type of Arrow it does not support, or a dictionary without integer keys;
\* the views on strings are read by typed arrays only.
RunFormats == {"s", "S", "i", "I", "l", "L"}
RECURSIVE Unreadable(_)
Unreadable(r) ==
  (IF r.k \in {"no", "strv"} \/ (r.k = "str" /\ r.f # "u") THEN {"runtime"} ELSE {})
  \cup (IF r.k = "ree" /\ (r.ch[1].k # "prim" \/ r.ch[1].f \notin RunFormats) THEN {"argument"} ELSE {})
  \cup UNION {Unreadable(r.ch[c]) : c \in 1..Len(r.ch)}
  \cup UNION {Unreadable(r.di[c]) : c \in 1..Len(r.di)}

\* the elements s..e-1
Slice(r, s, e) == [r EXCEPT !.off = @ + s, !.len = e - s, !.nc = -1]
=============================================================================
