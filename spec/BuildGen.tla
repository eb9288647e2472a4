------------------------------ MODULE BuildGen ------------------------------
(* All values of the types in the file TYPES up to a size, built up one      *)
(* element after the other.                                                  *)
EXTENDS BuildMachine, Json, IOUtils
CONSTANTS Few,     \* how many values of the parts of a value are combined
          Cap,     \* how many arrays of one type, about
          MaxLen
Types == ndJsonDeserialize(IOEnv.TYPES)

Spread(s, k) == IF Len(s) <= k THEN s ELSE [i \in 1..k |-> s[((i - 1) * (Len(s) - 1)) \div (k - 1) + 1]]
Bytes(w, b) == [i \in 1..w |-> b[((i - 1) % Len(b)) + 1]]
Pairs(s) == [i \in 1..(Len(s) * Len(s)) |-> <<s[((i - 1) \div Len(s)) + 1], s[((i - 1) % Len(s)) + 1]>>]
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
Words2 == <<<<>>, <<97>>, <<98, 97>>, <<0, 200, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24>>>>

RECURSIVE Vals(_)
\* values of a type, as a sequence
Vals(T) ==
  CASE T[1] = "p" -> IF T[2] = "b" THEN <<<<0>>, <<1>>>>
                     ELSE IF T[2] \in {"f", "g"} THEN <<Bytes(T[3], <<0>>), Bytes(T[3], <<0, 0, 0, 65>>), Bytes(T[3], <<1, 2, 3, 193>>)>>
                     ELSE <<Bytes(T[3], <<0>>), Bytes(T[3], <<7, 1>>), Bytes(T[3], <<255, 128>>)>>
    [] T[1] = "b" -> Words2
    [] T[1] = "l" -> LET p == Spread(Vals(T[2]), Few) IN
                     <<<<>>>> \o [i \in 1..Len(p) |-> <<p[i]>>] \o Pairs(p)
    [] T[1] = "f" -> LET p == Spread(Vals(T[3]), Few) IN
                     [i \in 1..Pow(Len(p), T[2]) |-> [j \in 1..T[2] |-> p[(((i - 1) \div Pow(Len(p), T[2] - j)) % Len(p)) + 1]]]
    [] T[1] = "t" -> LET p == [c \in 1..Len(T[2]) |-> Spread(Vals(T[2][c]), Few)]
                         F[c \in 0..Len(p)] == IF c = 0 THEN <<<<>>>>
                                               ELSE Flat([i \in 1..Len(F[c - 1]) |-> [j \in 1..Len(p[c]) |-> Append(F[c - 1][i], p[c][j])]])
                     IN F[Len(p)]
    [] T[1] = "v" -> Flat([c \in 1..Len(T[2]) |-> LET p == Spread(Vals(T[2][c]), Few) IN [i \in 1..Len(p) |-> <<c - 1, p[i]>>]])
    [] T[1] = "n" -> LET p == Vals(T[2])
                         h == Spread(p, 2) IN
                     [i \in 1..Len(p) |-> <<1, p[i]>>] \o [i \in 1..Len(h) |-> <<0, h[i]>>]
    [] OTHER -> Vals(T[2])

\* evaluated once
Elems == TLCEval([t \in 1..Len(Types) |-> LET all == Vals(Strip(Types[t].type)[2]) IN Spread(all, Cap)])
Most == TLCEval([t \in 1..Len(Types) |->
          LET c == Len(Elems[t]) IN
          IF c * c > Cap THEN 1 ELSE IF c * c * c > Cap \/ MaxLen < 3 THEN 2 ELSE IF c * c * c * c > Cap \/ MaxLen < 4 THEN 3 ELSE 4])

RECURSIVE HasList(_)
HasList(T) == CASE T[1] = "l" -> TRUE
                [] T[1] = "f" -> HasList(T[3])
                [] T[1] \in {"t", "v"} -> \E c \in 1..Len(T[2]) : HasList(T[2][c])
                [] T[1] \in Wrap -> HasList(T[2])
                [] OTHER -> FALSE

Next ==
  \/ /\ type = Idle
     /\ \E t \in 1..Len(Types) : \E lg \in BOOLEAN :
          /\ lg => HasList(Strip(Types[t].type)[2])
          /\ Begin(Types[t].type, lg)
          /\ ev' = [op |-> "build", t |-> t]
  \/ /\ type # Idle
     /\ Len(val) < Most[ev.t]
     /\ \E i \in 1..Len(Elems[ev.t]) : Append1(Elems[ev.t][i])
     /\ UNCHANGED ev
Spec == Init /\ [][Next]_vars
EmitStep == PrintT(ToJson([t |-> ev'.t, large |-> IF large' THEN 1 ELSE 0, val |-> val']))
=============================================================================
