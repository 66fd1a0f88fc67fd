------------------------------ MODULE PNBuild ------------------------------
(***************************************************************************)
(* The notation by itself: values made by its constructors from values     *)
(* made before.  A program is a sequence of operations, and its heap has   *)
(* every value that it made, in order; none of them ever changes.          *)
(*   <<"lit", value>>              <<"list", indexes>>                     *)
(*   <<"map", keys, indexes>>      <<"call", name, indexes>>               *)
(*   <<"ascall", name, index>>     <<"params", index>>                     *)
(*   <<"name", name, index>>                                               *)
(***************************************************************************)
EXTENDS PN

IsWordOrDash(c) == IsLetter(c) \/ IsDigit(c) \/ c = 45
RECURSIVE ScanWordOrDash(_, _)
ScanWordOrDash(cs, i) == IF i <= Len(cs) /\ IsWordOrDash(cs[i]) THEN ScanWordOrDash(cs, i + 1) ELSE i
RECURSIVE Segments(_, _)
Segments(cs, i) ==
  IF i > Len(cs) THEN TRUE
  ELSE At(cs, i) = 58 /\ At(cs, i + 1) = 58 /\ IsWordOrDash(At(cs, i + 2)) /\ Segments(cs, ScanWordOrDash(cs, i + 2))
\* The keys of a map are names, possibly qualified, or empty
IsKey(key) ==
  LET cs == Codes(key)
      i == IF At(cs, 1) = 58 /\ At(cs, 2) = 58 THEN 3 ELSE 1
  IN cs = <<>> \/ (IsWordOrDash(At(cs, i)) /\ ~IsDigit(At(cs, i)) /\ Segments(cs, ScanWordOrDash(cs, i)))

Refused == <<"refused">>
AsParameters(v) == CASE v[1] = "call" -> v[3] [] v[1] = "list" -> v[2] [] OTHER -> <<v>>
Pick(heap, is) == [j \in 1..Len(is) |-> heap[is[j] + 1]]

\* What an operation adds to the heap
Made(op, heap) ==
  CASE op[1] = "lit" -> <<op[2]>>
    [] op[1] = "list" -> <<L(Pick(heap, op[2]))>>
    [] op[1] = "map" -> IF \A j \in 1..Len(op[2]) : IsKey(op[2][j]) THEN <<M([j \in 1..Len(op[2]) |-> <<op[2][j], heap[op[3][j] + 1]>>])>> ELSE <<Refused>>
    [] op[1] = "call" -> <<Call(op[2], Pick(heap, op[3]))>>
    [] op[1] = "ascall" -> <<AsCall(heap[op[3] + 1], op[2])>>
    [] op[1] = "params" -> AsParameters(heap[op[2] + 1])
    [] op[1] = "name" -> <<>>
RECURSIVE Heap(_, _, _)
Heap(ops, i, heap) == IF i > Len(ops) THEN heap ELSE Heap(ops, i + 1, heap \o Made(ops[i], heap))

ShownAs(v) == IF v = Refused THEN "refused" ELSE <<TextArg(Text(v)), Data(v), TextArg(JSON(v))>>
RECURSIVE Pairs(_, _, _, _)
Pairs(ops, i, heap, acc) ==
  IF i > Len(ops) THEN acc
  ELSE Pairs(ops, i + 1, heap, IF ops[i][1] = "name" THEN Append(acc, <<ops[i][2], ShownAs(heap[ops[i][3] + 1])>>) ELSE acc)

Program(ops) ==
  LET heap == Heap(ops, 1, <<>>)
  IN <<[j \in 1..Len(heap) |-> ShownAs(heap[j])], Pairs(ops, 1, heap, <<>>)>>
=============================================================================
