------------------------------- MODULE SeqLib -------------------------------
(* Mathematical sequences with the vocabulary of C++ sequence containers.    *)
(* Positions are 0-based, as iterator distances from begin() are.            *)
EXTENDS Integers, Sequences, FiniteSets

Rep(n, v)          == [i \in 1..n |-> v]
At(s, i)           == s[i + 1]
Put(s, i, v)       == [s EXCEPT ![i + 1] = v]
InsertAt(s, p, t)  == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
EraseAt(s, p, q)   == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
ResizeTo(s, n, v)  == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rep(n - Len(s), v)
Slice(s, p, q)     == SubSeq(s, p + 1, q)
CountVal(s, v)     == Cardinality({i \in DOMAIN s : s[i] = v})
SeqsUpTo(S, n)     == UNION {[1..k -> S] : k \in 0..n}
Min2(x, y)         == IF x < y THEN x ELSE y
Rev(s)             == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
