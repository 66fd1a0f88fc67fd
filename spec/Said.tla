-------------------------------- MODULE Said --------------------------------
(***************************************************************************)
(* What a node of the tree says of itself: the label that messages call it *)
(* by, the abstract kinds of expressions that it can be taken for, and     *)
(* what it tells as one of those.  The abstract kinds are                  *)
(*   D definition          d definition with name, parameters and body     *)
(*   B boolean             X binary            U unary                      *)
(*   C call                Q query             N something with a name     *)
(*   L literal value       # number            R resource                  *)
(*   0 nothing                                                             *)
(***************************************************************************)
EXTENDS Validator

DefinedByName == {"Application", "FunctionDefinition", "HostClassDefinition", "PlanDefinition", "ResourceTypeDefinition"}
Defining == DefinedByName \cup {"CapabilityMapping", "NodeDefinition", "SiteDefinition", "StepExpression", "TypeAlias", "TypeDefinition", "TypeMapping"}
Booleans == {"AndExpression", "OrExpression"}
Binaries == Booleans \cup {"ArithmeticExpression", "AssignmentExpression", "ComparisonExpression", "InExpression", "MatchExpression", "NamedAccessExpression", "RelationshipExpression"}
Calls == {"CallFunctionExpression", "CallMethodExpression", "CallNamedFunctionExpression"}
Queries == {"ExportedQuery", "VirtualQuery"}
Unaries == {"NotExpression", "ParenthesizedExpression", "RenderExpression", "TextExpression", "UnaryMinusExpression", "UnfoldExpression", "VariableExpression"}
Named == DefinedByName \cup {"AttributeOperation", "Parameter", "QualifiedName", "QualifiedReference", "ReservedWord", "StepExpression", "TypeAlias", "TypeDefinition"}
Literals2 == {"LiteralBoolean", "LiteralDefault", "LiteralFloat", "LiteralInteger", "LiteralString", "LiteralUndef", "QualifiedName", "QualifiedReference",
              "RegexpExpression", "RenderStringExpression", "ReservedWord"}
Numbers == {"LiteralFloat", "LiteralInteger"}
Resources == {"ResourceDefaultsExpression", "ResourceExpression", "ResourceOverrideExpression"}

Kinds(k) ==
  (IF k \in Defining THEN "D" ELSE "") \o (IF k \in DefinedByName THEN "d" ELSE "") \o (IF k \in Booleans THEN "B" ELSE "")
  \o (IF k \in Binaries THEN "X" ELSE "") \o (IF k \in Calls THEN "C" ELSE "") \o (IF k \in Queries THEN "Q" ELSE "") \o (IF k \in Unaries THEN "U" ELSE "")
  \o (IF k \in Named THEN "N" ELSE "") \o (IF k \in Literals2 THEN "L" ELSE "") \o (IF k \in Numbers THEN "#" ELSE "") \o (IF k \in Resources THEN "R" ELSE "")
  \o (IF k = "Nop" THEN "0" ELSE "")

NameOf(e) == IF e.k = "AttributeOperation" THEN e.v[2] ELSE e.v[1]
Also(c, s) == IF c THEN s ELSE <<>>

\* A number as the other kind of number, unless it is too large for that
WithoutSign(cs) == IF cs[1] = 45 THEN Tail(cs) ELSE cs
FloatOfInt(v) ==
  LET cs == Codes(v)
      ds == WithoutSign(cs)
  IN IF v = "0" THEN "0e0" ELSE (IF cs[1] = 45 THEN "-" ELSE "") \o FloatCanon(ds, <<>>, 0).v
\* without what follows the decimal point
IntOfFloat(v) ==
  LET p == Parts(v)
      w == IF p.x < 15 THEN p ELSE Exactly(Double(p.d, p.x + 1 - Len(p.d)))
      ds == IF Len(w.d) > w.x THEN SubSeq(w.d, 1, w.x + 1) ELSE w.d \o Zeros(w.x + 1 - Len(w.d))
  IN IF p.x < 0 \/ p.d = <<48>> THEN "0"
     ELSE IF p.x > 17 THEN "-"
     ELSE (IF p.sign = <<45>> THEN "-" ELSE "") \o Str(ds, 1, Len(ds) + 1)

ValueOf(e) ==
  CASE e.k \in {"QualifiedName", "QualifiedReference", "ReservedWord"} -> <<"s", Codes(e.v[1])>>
    [] e.k \in {"LiteralString", "RegexpExpression", "RenderStringExpression"} -> <<"s", e.v[1]>>
    [] e.k = "LiteralBoolean" -> <<"b", e.v[1]>>
    [] e.k = "LiteralInteger" -> <<"i", e.v[1]>>
    [] e.k = "LiteralFloat" -> <<"f", e.v[1]>>
    [] e.k = "LiteralUndef" -> <<"undef">>
    [] e.k = "LiteralDefault" -> <<"?", "parser.Default {}">>

\* The value found for a key is that of the first entry with the key as a string or a name
TextKey(e) == IF e.k = "LiteralString" THEN e.v[1] ELSE IF e.k \in {"QualifiedName", "QualifiedReference"} THEN Codes(e.v[1]) ELSE <<-1>>
\* what keys there are to ask for
AskedKey(e) == LET v == Literal(e) IN IF v # <<>> /\ v[1][1] = "s" THEN <<v[1][2]>> ELSE <<>>
RECURSIVE Got(_, _, _)
Got(es, i, k) == IF i > Len(es) THEN "none" ELSE IF es[i].k = "KeyedEntry" /\ TextKey(es[i].c[1][1]) = k THEN ToString(es[i].c[2][1].o) ELSE Got(es, i + 1, k)
RECURSIVE Gets(_, _, _)
Gets(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE Gets(es, i + 1, IF es[i].k # "KeyedEntry" THEN acc ELSE acc \o [j \in 1..Len(AskedKey(es[i].c[1][1])) |-> Got(es, 1, AskedKey(es[i].c[1][1])[j])])

ParametersOf(e) == e.c[1]
ArgumentsOf(e) == e.c[2]
BlockOf(e) == e.c[3] # <<>>

SaidOf(e) ==
  LET k == e.k
      more ==
        Also(k \in DefinedByName, <<e.v[1], Len(ParametersOf(e))>>)
        \o Also(k \in Binaries, <<e.c[1][1].o, e.c[2][1].o>>)
        \o Also(k \in Calls, <<Len(ArgumentsOf(e)), BlockOf(e)>>)
        \o Also(k \in Unaries, <<e.c[1][1].o>>)
        \o Also(k \in Named, <<NameOf(e)>>)
        \o Also(k \in Literals2, <<ValueOf(e)>>)
        \o (CASE k = "LiteralInteger" -> <<"-", FloatOfInt(e.v[1])>>
              [] k = "LiteralFloat" -> <<IntOfFloat(e.v[1]), "-">>
              [] k \in Resources -> <<e.v[1]>>
              \* another name for the type, or another function to call, and everything else as it is
              [] k = "QualifiedReference" -> <<Lower(e.v[1]), "Other::Name", "other::name", e.o, e.v[1]>>
              [] k = "CallNamedFunctionExpression" -> <<TRUE, e.v[1], Len(ArgumentsOf(e)), BlockOf(e), e.o>>
              [] k = "VariableExpression" ->
                   LET x == e.c[1][1]
                   IN IF x.k = "LiteralInteger" THEN <<TRUE, x.v[1], FALSE, "", x.v[1]>> ELSE <<FALSE, "0", TRUE, x.v[1], x.v[1]>>
              [] k = "LiteralHash" -> <<"none">> \o Gets(e.c[1], 1, <<>>)
              [] OTHER -> <<>>)
  IN <<Label(e), Kinds(k), more>>

SaidAll(ns) == [i \in 1..Len(ns) |-> SaidOf(ns[i])]
=============================================================================
