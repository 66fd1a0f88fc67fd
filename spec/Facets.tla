------------------------------- MODULE Facets -------------------------------
(***************************************************************************)
(* The facets of the outcome of parsing a source that can be observed, by  *)
(* the letters that the harness knows them by.  A mode is a string of the  *)
(* options of a parser and, with an s, the request for one expression.     *)
(***************************************************************************)
EXTENDS Said

Has(m, c) == \E i \in 1..Len(m) : SubSeq(m, i, i) = c
ModeOf(m) == [epp |-> Has(m, "e"), hex |-> Has(m, "h"), bt |-> Has(m, "b"), tasks |-> Has(m, "t"), wf |-> Has(m, "w"), ast |-> TRUE]

Facet(f, src, m, o) ==
  CASE f = "K" -> Tokens(src)
    [] f = "G" -> Lines(src)
    [] f = "A" -> IF o.ok THEN "ok" ELSE o.code
    [] f = "S" -> IF o.ok THEN Structure(o.ast) ELSE o.code
    [] f = "E" -> IF o.ok THEN <<>> ELSE <<o.code, o.line, o.pos, o.args>>
    [] f = "M" -> IF o.ok THEN <<>> ELSE ParseMessage(o)
    [] ~o.ok -> <<>>
    [] f = "P" -> Positions(src, o.ast)
    [] f = "T" -> Traversal(o.ast)
    [] f = "N" -> Data(ToPN(o.ast))
    [] f = "F" -> TextArg(Text(ToPN(o.ast)))
    [] f = "J" -> TextArg(JSON(ToPN(o.ast)))
    [] f = "C" -> SaidAll(Preorder(o.ast))
    [] f = "L" -> Literals(Preorder(o.ast))
    [] f \in {"0", "1", "2", "3", "4"} -> Validate(src, o.ast, f)
    [] f = "D" -> IF Has(m, "s") THEN "none" ELSE o.defs
=============================================================================
