------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Layout: what may stand between two tokens, and that it makes no         *)
(* difference which of the layouts of a kind it is.  There are two kinds:  *)
(* within a line, and across lines.                                        *)
(***************************************************************************)
EXTENDS Facets, TLC

\* what it comes to: whether it is accepted, and the tree
Meaning(src, m) == LET o == Outcome(src, ModeOf(m), Has(m, "s")) IN IF o.ok THEN Structure(o.ast) ELSE o.code

Within == << <<32>>, <<9>>, <<32, 32, 9>>, <<13>>, <<47, 42, 42, 47>>, <<32, 47, 42, 32, 35, 39, 32, 42, 47>>, <<47, 42, 32, 34, 123, 32, 42, 42, 47, 32>>, <<32, 47, 42, 233, 47, 42, 47, 9>> >>
Across == << <<10>>, <<32, 10>>, <<10, 32, 9>>, <<13, 10>>, <<35, 10>>, <<32, 35, 32, 99, 32, 47, 42, 10>>, <<10, 10>>, <<10, 47, 42, 10, 42, 47, 32>>, <<32, 47, 42, 32, 35, 32, 42, 47, 10>>, <<35, 128512, 39, 13, 10, 32>> >>
=============================================================================
