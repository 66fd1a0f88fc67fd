------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What a user of the parser can observe of the outcome of parsing a       *)
(* source.  Every facet is a value, compared as the text of that value.    *)
(***************************************************************************)
EXTENDS Syntax

\* The tree without positions
RECURSIVE Structure(_)
Structure(e) == <<e.k, e.v, [i \in 1..Len(e.c) |-> [j \in 1..Len(e.c[i]) |-> Structure(e.c[i][j])]]>>

RECURSIVE Flat(_, _, _)
\* The nodes of the tree in preorder. Slots are in source order
FlatSlots(c, i, acc) == Flat(c, i, acc)
Flat(c, i, acc) ==
  LET RECURSIVE Nodes(_, _, _)
      Nodes(es, j, a) == IF j > Len(es) THEN a ELSE Nodes(es, j + 1, Flat(es[j].c, 1, Append(a, es[j])))
  IN IF i > Len(c) THEN acc ELSE Flat(c, i + 1, Nodes(c[i], 1, acc))
Preorder(e) == Flat(<<<<e>>>>, 1, <<>>)

Children(e) ==
  LET RECURSIVE All(_, _)
      All(i, acc) == IF i > Len(e.c) THEN acc ELSE All(i + 1, acc \o e.c[i])
  IN All(1, <<>>)

LineCol(src, i) == <<LineOf(src, i), PosOf(src, i)>>

\* B: byte offset table of src
IndexOf(src, B, b) == IF B[Len(B)] = Len(src) THEN b + 1 ELSE CHOOSE i \in 1..Len(B) : B[i] = b

Positions(src, e) ==
  LET B == ByteOffsets(src)
      at == Lines(src)
      ns == Preorder(e)
  IN [j \in 1..Len(ns) |-> <<ns[j].o, ns[j].n>> \o at[IndexOf(src, B, ns[j].o)]]

At2(e) == e.k \o "@" \o ToString(e.o)

RECURSIVE Visits(_, _, _, _)
\* Every node below, each with all of its ancestors
Visits(path, es, j, acc) ==
  IF j > Len(es) THEN acc
  ELSE LET p == Append(path, At2(es[j]))
       IN Visits(path, es, j + 1, Visits(p, Children(es[j]), 1, Append(acc, p)))

Traversal(e) ==
  LET ns == Preorder(e)
  IN <<Visits(<<At2(e)>>, Children(e), 1, <<>>),
       [j \in 1..Len(ns) |-> LET cs == Children(ns[j]) IN [m \in 1..Len(cs) |-> At2(cs[m])]]>>
=============================================================================
