------------------------------ MODULE SeqTrace ------------------------------
(* Accepts an ndjson trace recorded from the implementation exactly when     *)
(* every step of it is a step of SeqMachine.                                 *)
EXTENDS SeqMachine, Json, IOUtils
CONSTANT Kind            \* "plain" | "bits" | "nullable"
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(e) ==
  LET x == e.x IN
  \/ e.op = "push"     /\ Push(x[1])
  \/ e.op = "pushSelf" /\ PushSelf(x[1])
  \/ e.op = "pop"      /\ Pop
  \/ e.op = "ins"      /\ Ins(x[1], x[2])
  \/ e.op = "insSelf"  /\ InsSelf(x[1], x[2])
  \/ e.op = "insN"     /\ InsN(x[1], x[2], x[3])
  \/ e.op = "insNSelf" /\ InsNSelf(x[1], x[2], x[3])
  \/ e.op = "insR"     /\ InsR(x[1], e.t)
  \/ e.op = "insL"     /\ InsL(x[1], e.t)
  \/ e.op = "insB"     /\ InsB(x[1])
  \/ e.op = "emplace"  /\ Emplace(x[1], x[2])
  \/ e.op = "er"       /\ Er(x[1])
  \/ e.op = "erR"      /\ ErR(x[1], x[2])
  \/ e.op = "res"      /\ Res(x[1])
  \/ e.op = "resV"     /\ ResV(x[1], x[2])
  \/ e.op = "resVSelf" /\ ResVSelf(x[1], x[2])
  \/ e.op = "clear"    /\ Clear
  \/ e.op = "set"      /\ SetElem(x[1], x[2], x[3])
  \/ e.op = "asgL"     /\ AsgL(e.t)
  \/ e.op = "asgN"     /\ AsgN(x[1], x[2])
  \/ e.op = "reserve"  /\ Reserve(x[1])
  \/ e.op = "shrink"   /\ Shrink
  \/ e.op = "copyTo"   /\ CopyTo
  \/ e.op = "copyNew"  /\ CopyNew
  \/ e.op = "moveTo"   /\ MoveTo
  \/ e.op = "moveNew"  /\ MoveNew
  \/ e.op = "selfAsg"  /\ SelfAsg
  \/ e.op = "swap"     /\ SwapAB
  \/ e.op = "dropB"    /\ DropB
  \/ e.op = "slice"    /\ SliceA(x[1], x[2])

\* a new pair of objects, built from the sequences in t and u
New(e) == /\ e.op = "new" /\ a' = e.t /\ b' = e.u /\ xa' = TRUE /\ xb' = TRUE /\ NoIt /\ Ev("new", <<>>, <<>>)

\* What the implementation must report besides the elements: its null counts,
\* and that no access path (see the harness) disagrees with indexing.
Nulls(s) == CASE Kind = "bits" -> CountVal(s, 0)
              [] Kind = "nullable" -> CountVal(s, Null)
              [] OTHER -> 0
Obs(e) == /\ e.dis = <<>>
          /\ Kind # "plain" => /\ (xa' => e.na = Nulls(a'))
                               /\ (xb' => e.nb = Nulls(b'))
          /\ e.eq = (IF a' = b' THEN 1 ELSE 0)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN
                  /\ Step(e) \/ New(e)
                  /\ a' = e.a /\ b' = e.b /\ ret' = e.r
                  /\ Obs(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
                   PrintT(<<"ACCEPTED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
