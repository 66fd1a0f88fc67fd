------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Trees that are put together by hand, with the factory that the parser   *)
(* uses too.  A program is a sequence of operations                        *)
(*    [m: method, o, n: offset and length, v: attributes, c: parts]        *)
(* each of which makes a node from what was made before; parts are given   *)
(* by their numbers, in the order in which the method takes them.  A node  *)
(* may be part of several others.                                          *)
(***************************************************************************)
EXTENDS Facets

\* Methods that have attributes and parts in the order in which the node has them
Methods ==
  {<<"Access", "AccessExpression">>, <<"Step", "StepExpression">>, <<"And", "AndExpression">>, <<"Application", "Application">>,
   <<"Array", "LiteralList">>, <<"Arithmetic", "ArithmeticExpression">>, <<"Assignment", "AssignmentExpression">>,
   <<"AttributeOp", "AttributeOperation">>, <<"AttributesOp", "AttributesOperation">>, <<"Block", "BlockExpression">>,
   <<"Boolean", "LiteralBoolean">>, <<"CallNamed", "CallNamedFunctionExpression">>, <<"CapabilityMapping", "CapabilityMapping">>,
   <<"Case", "CaseExpression">>, <<"Class", "HostClassDefinition">>, <<"Collect", "CollectExpression">>, <<"Comparison", "ComparisonExpression">>,
   <<"ConcatenatedString", "ConcatenatedString">>, <<"Default", "LiteralDefault">>, <<"Definition", "ResourceTypeDefinition">>,
   <<"ExportedQuery", "ExportedQuery">>, <<"Float", "LiteralFloat">>, <<"Hash", "LiteralHash">>, <<"If", "IfExpression">>, <<"In", "InExpression">>,
   <<"Integer", "LiteralInteger">>, <<"KeyedEntry", "KeyedEntry">>, <<"Lambda", "LambdaExpression">>, <<"Match", "MatchExpression">>,
   <<"NamedAccess", "NamedAccessExpression">>, <<"Negate", "UnaryMinusExpression">>, <<"Nop", "Nop">>, <<"Not", "NotExpression">>,
   <<"Or", "OrExpression">>, <<"Parenthesized", "ParenthesizedExpression">>, <<"Program", "Program">>, <<"QualifiedName", "QualifiedName">>,
   <<"QualifiedReference", "QualifiedReference">>, <<"Regexp", "RegexpExpression">>, <<"RelOp", "RelationshipExpression">>,
   <<"RenderExpression", "RenderExpression">>, <<"RenderString", "RenderStringExpression">>, <<"ReservedWord", "ReservedWord">>,
   <<"Resource", "ResourceExpression">>, <<"ResourceBody", "ResourceBody">>, <<"ResourceDefaults", "ResourceDefaultsExpression">>,
   <<"ResourceOverride", "ResourceOverrideExpression">>, <<"Select", "SelectorExpression">>, <<"Selector", "SelectorEntry">>,
   <<"Site", "SiteDefinition">>, <<"String", "LiteralString">>, <<"Text", "TextExpression">>, <<"TypeAlias", "TypeAlias">>,
   <<"TypeDefinition", "TypeDefinition">>, <<"TypeMapping", "TypeMapping">>, <<"Undef", "LiteralUndef">>, <<"Unfold", "UnfoldExpression">>,
   <<"Unless", "UnlessExpression">>, <<"Variable", "VariableExpression">>, <<"VirtualQuery", "VirtualQuery">>, <<"When", "CaseOption">>}
KindMade(m) == (CHOOSE p \in Methods : p[1] = m)[2]

Made(op, heap) ==
  LET c == [i \in 1..Len(op.c) |-> [j \in 1..Len(op.c[i]) |-> heap[op.c[i][j] + 1]]]
      Is(k, v, parts) == [k |-> k, v |-> v, c |-> parts, o |-> op.o, n |-> op.n]
  IN CASE op.m = "CallMethod" -> Is("CallMethodExpression", <<TRUE>>, c)
       [] op.m = "EppExpression" -> Is("LambdaExpression", <<>>, <<c[1], <<Is("EppExpression", <<c[1] # <<>>>>, <<c[2]>>)>>, <<>>>>)
       [] op.m = "Function" -> Is("FunctionDefinition", op.v, <<c[1], c[3], c[2]>>)
       [] op.m = "Plan" -> Is("PlanDefinition", op.v, <<c[1], c[3], c[2]>>)
       [] op.m = "Heredoc" -> Is("HeredocExpression", op.v, c)
       [] op.m = "Node" -> Is("NodeDefinition", op.v, <<c[2], c[1], c[3]>>)
       [] op.m = "Parameter" -> Is("Parameter", op.v, <<c[2], c[1]>>)
       [] OTHER -> Is(KindMade(op.m), op.v, c)

RECURSIVE Heap(_, _, _)
Heap(ops, i, heap) == IF i > Len(ops) THEN heap ELSE Heap(ops, i + 1, Append(heap, Made(ops[i], heap)))

\* A facet of the last node, or the structure of all of them
Built(f, src, ops) ==
  LET heap == Heap(ops, 1, <<>>)
  IN IF f = "H" THEN [i \in 1..Len(heap) |-> Structure(heap[i])]
     ELSE Facet(f, src, "", [ok |-> TRUE, ast |-> heap[Len(heap)], defs |-> <<>>])
=============================================================================
