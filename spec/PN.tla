-------------------------------- MODULE PN --------------------------------
(***************************************************************************)
(* The Puppet Extended S-Expression Notation of a syntax tree.  A value is *)
(* one of                                                                  *)
(*    <<"nil">>        <<"b", boolean>>     <<"i", decimal numeral>>       *)
(*    <<"f", float>>   <<"n", name>>        <<"s", code points>>           *)
(*    <<"list", values>>   <<"map", <<key, value>> ...>>                   *)
(*    <<"call", name, values>>                                             *)
(* where "n" and "s" are strings; a name is kept as a TLA+ string.         *)
(***************************************************************************)
EXTENDS Syntax

L(vs) == <<"list", vs>>
Nm(name) == <<"n", name>>
Call(name, vs) == <<"call", name, vs>>
M(es) == <<"map", es>>
MapCall(name, es) == Call(name, <<M(es)>>)

AsCall(v, name) ==
  CASE v[1] = "call" -> Call(name, v[3])
    [] v[1] = "list" -> Call(name, v[2])
    [] OTHER -> Call(name, <<v>>)

RECURSIVE ToPN(_), PNs(_), BlockEntry(_, _), ParamsEntry(_), If(_, _), Def(_, _, _, _, _, _)

PNs(es) == [i \in 1..Len(es) |-> ToPN(es[i])]
Opt(name, es) == IF es = <<>> THEN <<>> ELSE <<<<name, ToPN(es[1])>>>>
OptList(name, es) == IF es = <<>> THEN <<>> ELSE <<<<name, L(PNs(es))>>>>

\* The statements of a block, or a single expression
BlockEntry(name, e) == <<name, L(IF e.k = "BlockExpression" THEN PNs(e.c[1]) ELSE <<ToPN(e)>>)>>

ParamEntries(p) ==
  Opt("type", p.c[1]) \o (IF p.v[2] THEN <<<<"splat", <<"b", TRUE>>>>>> ELSE <<>>) \o Opt("value", p.c[2])
ParamsEntry(ps) ==
  IF ps = <<>> THEN <<>> ELSE <<<<"params", M([i \in 1..Len(ps) |-> <<ps[i].v[1], M(ParamEntries(ps[i]))>>])>>>>

If(name, e) ==
  MapCall(name, <<<<"test", ToPN(e.c[1][1])>>>>
    \o (IF e.c[2][1].k = "Nop" THEN <<>> ELSE <<BlockEntry("then", e.c[2][1])>>)
    \o (IF e.c[3][1].k = "Nop" THEN <<>> ELSE <<BlockEntry("else", e.c[3][1])>>))

Def(kind, name, parent, params, body, returns) ==
  MapCall(kind, <<<<"name", Nm(name)>>>>
    \o (IF parent = "" THEN <<>> ELSE <<<<"parent", Nm(parent)>>>>)
    \o ParamsEntry(params) \o <<BlockEntry("body", body)>> \o Opt("returns", returns))

Invocation(e, statement, expression) ==
  MapCall(IF e.v[1] THEN expression ELSE statement,
    <<<<"functor", ToPN(e.c[1][1])>>, <<"args", L(PNs(e.c[2]))>>>> \o Opt("block", e.c[3]))

Form(e) == IF e.v[1] = "regular" THEN <<>> ELSE <<<<"form", Nm(e.v[1])>>>>

\* the members of tuples, one after the other
Flatten(vs) == Folds!FoldLeft(LAMBDA acc, v : acc \o v, <<>>, vs)

ToPN(e) ==
  LET k == e.k
      A == ToPN(e.c[1][1])
      Infix(op) == Call(op, <<ToPN(e.c[1][1]), ToPN(e.c[2][1])>>)
  IN
  CASE k = "LiteralString" -> <<"s", e.v[1]>>
    [] k = "VariableExpression" ->
         Call("var", <<IF e.c[1][1].k = "QualifiedName" THEN Nm(e.c[1][1].v[1]) ELSE <<"i", e.c[1][1].v[1]>>>>)
    [] k = "LiteralInteger" ->
         IF e.v[2] = "10" THEN <<"i", e.v[1]>> ELSE MapCall("int", <<<<"radix", <<"i", e.v[2]>>>>, <<"value", <<"i", e.v[1]>>>>>>)
    [] k = "LiteralFloat" -> <<"f", e.v[1]>>
    [] k = "LiteralBoolean" -> <<"b", e.v[1]>>
    [] k = "LiteralUndef" -> <<"nil">>
    [] k = "LiteralDefault" -> Call("default", <<>>)
    [] k = "LiteralList" -> Call("array", PNs(e.c[1]))
    [] k = "LiteralHash" -> Call("hash", PNs(e.c[1]))
    [] k \in {"KeyedEntry", "SelectorEntry"} -> Infix("=>")
    [] k = "QualifiedName" -> Call("qn", <<Nm(e.v[1])>>)
    [] k = "QualifiedReference" -> Call("qr", <<Nm(e.v[1])>>)
    [] k = "ReservedWord" -> Call("reserved", <<Nm(e.v[1])>>)
    [] k = "RegexpExpression" -> Call("regexp", <<<<"s", e.v[1]>>>>)
    [] k = "RenderStringExpression" -> Call("render-s", <<<<"s", e.v[1]>>>>)
    [] k = "Nop" -> Call("nop", <<>>)
    [] k = "Program" -> A
    [] k = "BlockExpression" -> Call("block", PNs(e.c[1]))
    [] k = "AccessExpression" -> Call("access", <<A>> \o PNs(e.c[2]))
    [] k \in {"ArithmeticExpression", "AssignmentExpression", "ComparisonExpression", "MatchExpression", "RelationshipExpression"} ->
         Infix(e.v[1])
    [] k = "AndExpression" -> Infix("and")
    [] k = "OrExpression" -> Infix("or")
    [] k = "InExpression" -> Infix("in")
    [] k = "NamedAccessExpression" -> Infix(".")
    [] k = "NotExpression" -> Call("!", <<A>>)
    [] k = "UnaryMinusExpression" -> Call("-", <<A>>)
    [] k = "UnfoldExpression" -> Call("unfold", <<A>>)
    [] k = "ParenthesizedExpression" -> Call("paren", <<A>>)
    [] k = "RenderExpression" -> Call("render", <<A>>)
    [] k = "TextExpression" -> Call("str", <<A>>)
    [] k = "ConcatenatedString" -> Call("concat", PNs(e.c[1]))
    [] k = "HeredocExpression" ->
         MapCall("heredoc", (IF e.v[1] = <<>> THEN <<>> ELSE <<<<"syntax", <<"s", e.v[1]>>>>>>) \o <<<<"text", A>>>>)
    [] k = "AttributeOperation" -> Call(e.v[1], <<Nm(e.v[2]), A>>)
    [] k = "AttributesOperation" -> Call("splat-hash", <<A>>)
    [] k = "CallNamedFunctionExpression" -> Invocation(e, "invoke", "call")
    [] k = "CallMethodExpression" -> Invocation(e, "invoke-method", "call-method")
    [] k = "CallFunctionExpression" -> Invocation(e, "invoke-lambda", "call-lambda")
    [] k = "LambdaExpression" ->
         MapCall("lambda", ParamsEntry(e.c[1]) \o Opt("returns", e.c[3]) \o <<BlockEntry("body", e.c[2][1])>>)
    [] k = "CaseExpression" -> Call("case", <<A, L(PNs(e.c[2]))>>)
    [] k = "CaseOption" -> M(<<<<"when", L(PNs(e.c[1]))>>, BlockEntry("then", e.c[2][1])>>)
    [] k = "SelectorExpression" -> Call("?", <<A, L(PNs(e.c[2]))>>)
    [] k = "IfExpression" -> If("if", e)
    [] k = "UnlessExpression" -> If("unless", e)
    [] k = "CollectExpression" -> MapCall("collect", <<<<"type", A>>, <<"query", ToPN(e.c[2][1])>>>> \o OptList("ops", e.c[3]))
    [] k \in {"VirtualQuery", "ExportedQuery"} ->
         Call(IF k = "VirtualQuery" THEN "virtual-query" ELSE "exported-query",
              IF e.c[1][1].k = "Nop" THEN <<>> ELSE <<A>>)
    [] k = "ResourceBody" -> MapCall("resource-body", <<<<"title", A>>, <<"ops", L(PNs(e.c[2]))>>>>)
    [] k = "ResourceExpression" ->
         MapCall("resource", <<<<"type", A>>, <<"bodies", L(Flatten([i \in 1..Len(e.c[2]) |-> ToPN(e.c[2][i])[3]]))>>>> \o Form(e))
    [] k = "ResourceDefaultsExpression" -> MapCall("resource-defaults", <<<<"type", A>>, <<"ops", L(PNs(e.c[2]))>>>> \o Form(e))
    [] k = "ResourceOverrideExpression" -> MapCall("resource-override", <<<<"resources", A>>, <<"ops", L(PNs(e.c[2]))>>>> \o Form(e))
    [] k = "Parameter" -> MapCall("param", <<<<"name", Nm(e.v[1])>>>> \o ParamEntries(e))
    [] k = "Application" -> Def("application", e.v[1], "", e.c[1], e.c[2][1], <<>>)
    [] k = "HostClassDefinition" -> Def("class", e.v[1], e.v[2], e.c[1], e.c[2][1], <<>>)
    [] k = "ResourceTypeDefinition" -> Def("define", e.v[1], "", e.c[1], e.c[2][1], <<>>)
    [] k = "FunctionDefinition" -> Def("function", e.v[1], "", e.c[1], e.c[3][1], e.c[2])
    [] k = "PlanDefinition" -> Def("plan", e.v[1], "", e.c[1], e.c[3][1], e.c[2])
    [] k = "NodeDefinition" ->
         MapCall("node", <<<<"matches", L(PNs(e.c[2]))>>>> \o Opt("parent", e.c[1]) \o <<BlockEntry("body", e.c[3][1])>>)
    [] k = "SiteDefinition" -> AsCall(A, "site")
    [] k = "EppExpression" -> AsCall(A, "epp")
    [] k = "TypeAlias" -> Call("type-alias", <<Nm(e.v[1]), A>>)
    [] k = "TypeDefinition" -> Call("type-definition", <<Nm(e.v[1]), Nm(e.v[2]), A>>)
    [] k = "TypeMapping" -> Infix("type-mapping")
    [] k = "CapabilityMapping" -> Call(e.v[1], <<A, L(<<Nm(e.v[2])>> \o PNs(e.c[2]))>>)
    [] k = "StepExpression" ->
         MapCall("step", <<<<"name", Nm(e.v[1])>>, <<"style", Nm(e.v[2])>>>> \o Opt("properties", e.c[1]) \o Opt("definition", e.c[2]))

\* The value as data: a name is a string like any other
RECURSIVE Data(_)
Data(v) ==
  CASE v[1] = "n" -> <<"s", v[2]>>
    [] v[1] = "s" -> <<"s", TextArg(v[2])>>
    [] v[1] = "list" -> <<"list", [i \in 1..Len(v[2]) |-> Data(v[2][i])]>>
    [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Data(v[2][i][2])>>]>>
    [] v[1] = "call" -> <<"call", v[2], [i \in 1..Len(v[3]) |-> Data(v[3][i])]>>
    [] OTHER -> v

(******************************* numbers as text ***************************)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
IndexOfE(cs) == CHOOSE i \in 1..Len(cs) : cs[i] = 101
\* sign, digits and exponent of the first digit of a float
Parts(f) ==
  LET all == Codes(f)
      neg == all[1] = 45
      cs == IF neg THEN Tail(all) ELSE all
      e == IndexOfE(cs)
      xneg == cs[e + 1] = 45
      x == IntVal(cs, IF xneg THEN e + 2 ELSE e + 1, Len(cs) + 1, 0)
  IN [sign |-> IF neg THEN <<45>> ELSE <<>>, d |-> SubSeq(cs, 1, e - 1), x |-> IF xneg THEN -x ELSE x]
Abs(x) == IF x < 0 THEN -x ELSE x
\* exponents have two digits at least
Exponent(x, sign, digits) ==
  LET n == Codes(ToString(Abs(x)))
  IN <<101>> \o (IF x < 0 THEN <<45>> ELSE sign) \o (IF Len(n) < digits THEN <<48>> ELSE <<>>) \o n
\* without exponent
Plain(d, x) ==
  IF x < 0 THEN <<48, 46>> \o Zeros(-x - 1) \o d
  ELSE IF Len(d) <= x + 1 THEN d \o Zeros(x + 1 - Len(d))
  ELSE SubSeq(d, 1, x + 1) \o <<46>> \o SubSeq(d, x + 2, Len(d))
Scientific(d, x, always, sign, digits) ==
  <<d[1]>> \o (IF Len(d) > 1 THEN <<46>> \o Tail(d) ELSE IF always THEN <<46, 48>> ELSE <<>>) \o Exponent(x, sign, digits)

\* Sixteen digits of the exact value. (Those of a number with less than sixteen digits are its digits when they begin with something
\* from 1 on, but not 1 itself, to 4.5: the error of a double is less than half of the sixteenth digit.)
Sixteen(p) ==
  IF p.d = <<48>> \/ (Len(p.d) < 16 /\ p.d # <<49>> /\ p.d[1] < 52 /\ p.x > -300) THEN p
  ELSE Rounded(Exactly(Double(p.d, p.x + 1 - Len(p.d))), 16) @@ p
\* A float in PN can be told from a whole number: it has a decimal point or an exponent. One that looks like a whole number with
\* sixteen digits is written with an exponent, and seventeen digits.
FloatText(f) ==
  LET all == Parts(f)
      p == Sixteen(all)
      p17 == IF Len(all.d) < 16 THEN p ELSE Rounded(Exactly(Double(all.d, all.x + 1 - Len(all.d))), 17)
  IN p.sign \o (IF p.x < -4 \/ p.x >= 16 THEN Scientific(p.d, p.x, FALSE, <<43>>, 2)
                ELSE IF Len(p.d) <= p.x + 1 THEN Scientific(p17.d, p17.x, TRUE, <<43>>, 2)
                ELSE Plain(p.d, p.x))
FloatJSON(f) ==
  LET p == Parts(f)
  IN p.sign \o (IF p.d # <<48>> /\ (p.x < -6 \/ p.x >= 21) THEN Scientific(p.d, p.x, FALSE, <<43>>, 1)
                ELSE Plain(p.d, p.x))

(******************************** PN as text *******************************)
Byte(c) == IF c < 0 THEN 65533 ELSE c
Octal(c) == <<92, 111, 48 + c \div 64, 48 + ((c \div 8) % 8), 48 + (c % 8)>>
QuoteChar(c) ==
  CASE c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>>
    [] c >= 0 /\ c < 32 -> Octal(c)
    [] OTHER -> <<Byte(c)>>
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
JSONChar(c) ==
  CASE c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
    [] c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>>
    [] c >= 0 /\ c < 32 -> <<92, 117, 48, 48, 48 + c \div 16, Hex(c % 16)>>
    [] c \in {8232, 8233} -> <<92, 117, 50, 48, 50, Hex(c - 8224)>>
    [] OTHER -> <<Byte(c)>>
Quoted(cs, Char(_)) == <<34>> \o Flatten([i \in 1..Len(cs) |-> Char(cs[i])]) \o <<34>>

\* texts joined with a separator
JoinTexts(ts, sep) == IF ts = <<>> THEN <<>> ELSE Folds!FoldLeft(LAMBDA acc, t : acc \o sep \o t, ts[1], Tail(ts))

Simple(v) == CASE v[1] = "nil" -> "nil" [] v[1] = "b" -> (IF v[2] THEN "true" ELSE "false") [] v[1] = "i" -> v[2]

RECURSIVE Text(_)
Texts(vs) == JoinTexts([i \in 1..Len(vs) |-> Text(vs[i])], <<32>>)
Text(v) ==
  CASE v[1] = "n" -> <<34>> \o Codes(v[2]) \o <<34>>
    [] v[1] = "s" -> Quoted(v[2], QuoteChar)
    [] v[1] = "f" -> FloatText(v[2])
    [] v[1] = "list" -> <<91>> \o Texts(v[2]) \o <<93>>
    [] v[1] = "map" -> <<123>> \o JoinTexts([i \in 1..Len(v[2]) |-> <<58>> \o Codes(v[2][i][1]) \o <<32>> \o Text(v[2][i][2])], <<32>>) \o <<125>>
    [] v[1] = "call" -> <<40>> \o Codes(v[2]) \o (IF v[3] = <<>> THEN <<>> ELSE <<32>> \o Texts(v[3])) \o <<41>>
    [] OTHER -> Codes(Simple(v))

RECURSIVE JSON(_)
JSONs(vs) == JoinTexts([i \in 1..Len(vs) |-> JSON(vs[i])], <<44>>)
NameJSON(name) == <<34>> \o Codes(name) \o <<34>>
\* a call is {"^": [name, argument ...]} and a map {"#": [key, value ...]}
JSON(v) ==
  CASE v[1] = "n" -> NameJSON(v[2])
    [] v[1] = "s" -> Quoted(v[2], JSONChar)
    [] v[1] = "f" -> FloatJSON(v[2])
    [] v[1] = "nil" -> Codes("null")
    [] v[1] = "list" -> <<91>> \o JSONs(v[2]) \o <<93>>
    [] v[1] = "map" ->
         Codes("{\"#\":[") \o JoinTexts([i \in 1..Len(v[2]) |-> NameJSON(v[2][i][1]) \o <<44>> \o JSON(v[2][i][2])], <<44>>) \o Codes("]}")
    [] v[1] = "call" -> Codes("{\"^\":[") \o NameJSON(v[2]) \o (IF v[3] = <<>> THEN <<>> ELSE <<44>> \o JSONs(v[3])) \o Codes("]}")
    [] OTHER -> Codes(Simple(v))
=============================================================================
