----------------------------- MODULE Validator -----------------------------
(***************************************************************************)
(* What validation of a syntax tree reports: a tuple of issues             *)
(* <<code, severity, line, position, message>>.  Every node is validated   *)
(* with respect to its ancestors, in preorder.  There are five sorts of    *)
(* validation: that of Puppet code with strictness off, warning or error   *)
(* ("0", "1", "2"), of tasks ("3") and of workflows ("4").                 *)
(***************************************************************************)
EXTENDS Observe, PN, Literal, Messages

BinaryKinds == {"AndExpression", "ArithmeticExpression", "AssignmentExpression", "ComparisonExpression", "InExpression", "MatchExpression",
                "NamedAccessExpression", "OrExpression", "RelationshipExpression"}
UnaryKinds == {"NotExpression", "ParenthesizedExpression", "RenderExpression", "TextExpression", "UnaryMinusExpression", "UnfoldExpression",
               "VariableExpression"}
DefinitionKinds == {"Application", "CapabilityMapping", "FunctionDefinition", "HostClassDefinition", "NodeDefinition", "PlanDefinition",
                    "ResourceTypeDefinition", "SiteDefinition", "StepExpression", "TypeAlias", "TypeDefinition", "TypeMapping"}
ResourceKinds == {"ResourceDefaultsExpression", "ResourceExpression", "ResourceOverrideExpression"}

ReservedTypeNames == {"type", "any", "unit", "scalar", "boolean", "numeric", "integer", "float", "collection", "array", "hash", "tuple", "struct",
  "variant", "optional", "enum", "regexp", "pattern", "runtime", "init", "object", "sensitive", "semver", "semverrange", "string", "timestamp",
  "timespan", "typeset"}
FutureReservedWords == {"application", "produces", "consumes"}
ReservedParameters == {"name", "title"}

\* Operations on a catalog: they are not available to tasks and workflows
CatalogKinds == {"Application", "CapabilityMapping", "CollectExpression", "HostClassDefinition", "NodeDefinition", "RelationshipExpression",
                 "ResourceDefaultsExpression", "ResourceExpression", "ResourceOverrideExpression", "ResourceTypeDefinition", "SiteDefinition"}

SeverityOf(sort, code) ==
  CASE code = "VALIDATE_FUTURE_RESERVED_WORD" -> "deprecation"
    [] code \in {"VALIDATE_DUPLICATE_KEY", "VALIDATE_IDEM_EXPRESSION_NOT_LAST"} ->
         (CASE sort = "0" -> "ignore" [] sort = "1" -> "warning" [] OTHER -> "error")
    [] OTHER -> "error"

\* x: [src, B, sort]
Issue(x, code, e, message) ==
  IF SeverityOf(x.sort, code) = "ignore" THEN <<>>
  ELSE <<<<code, SeverityOf(x.sort, code)>> \o LineCol(x.src, IndexOf(x.src, x.B, e.o)) \o <<message>>>>
SourceOf(x, e) == Shown(From(x.src, IndexOf(x.src, x.B, e.o), IndexOf(x.src, x.B, e.o + e.n)))

(********************************** names **********************************)
RECURSIVE NameMatches(_, _, _)
\* segments that are separated with :: and start with an upper case letter, or else a lower case one
NameMatches(cs, i, upper) ==
  /\ IF upper THEN IsUpper(At(cs, i)) ELSE IsLower(At(cs, i))
  /\ LET j == ScanWord(cs, i + 1)
     IN j > Len(cs) \/ (At(cs, j) = 58 /\ At(cs, j + 1) = 58 /\ NameMatches(cs, j + 2, upper))
IsTypeRefName(cs) == NameMatches(cs, IF At(cs, 1) = 58 /\ At(cs, 2) = 58 THEN 3 ELSE 1, TRUE)
IsTypeName(cs) == NameMatches(cs, 1, TRUE)
IsDefinitionName(cs) == NameMatches(cs, 1, FALSE)
IsParamName(cs) == cs # <<>> /\ (IsLower(cs[1]) \/ cs[1] = 95) /\ ScanWord(cs, 1) > Len(cs)
LowerCase(cs) == [i \in 1..Len(cs) |-> IF IsUpper(cs[i]) THEN cs[i] + 32 ELSE cs[i]]
Lower(name) == Cat(LowerCase(Codes(name)), "")
HasDoubleColon(cs) == \E i \in 1..(Len(cs) - 1) : cs[i] = 58 /\ cs[i + 1] = 58
IsHostname(cs) == \A i \in 1..Len(cs) : IsWord(cs[i]) \/ cs[i] = 45 \/ cs[i] = 46

(********************************** rules **********************************)
\* the issues of each element of a tuple
Each(es, F(_)) ==
  LET RECURSIVE Go(_, _)
      Go(i, acc) == IF i > Len(es) THEN acc ELSE Go(i + 1, acc \o F(es[i]))
  IN Go(1, <<>>)
\* The elements that have a key that was seen before
Repeated(es, Key(_)) == SelectSeq([i \in 1..Len(es) |-> [e |-> es[i], again |-> \E j \in 1..(i - 1) : Key(es[j]) = Key(es[i])]], LAMBDA r : r.again)

RECURSIVE RValue(_, _)
RValue(x, e) ==
  IF e.k \in UnaryKinds THEN RValue(x, Op1(e, 1))
  ELSE IF e.k \in DefinitionKinds \cup {"CollectExpression"}
  THEN Issue(x, "VALIDATE_NOT_RVALUE", e, "Invalid use of expression. " \o UcAn(Label(e)) \o " does not produce a value")
  ELSE <<>>

RECURSIVE Assign(_, _)
Assign(x, e) ==
  CASE e.k = "AccessExpression" -> Issue(x, "VALIDATE_ILLEGAL_ASSIGNMENT_VIA_INDEX", e, "Illegal attempt to assign via [index/key]. Not an assignable reference")
    [] e.k = "LiteralList" -> Each(e.c[1], LAMBDA el : Assign(x, el))
    [] e.k = "VariableExpression" ->
         LET n == Op1(e, 1) IN
         IF n.k = "QualifiedName"
         THEN IF HasDoubleColon(Codes(n.v[1]))
              THEN Issue(x, "VALIDATE_CROSS_SCOPE_ASSIGNMENT", e, "Illegal attempt to assign to '" \o n.v[1] \o "'. Cannot assign to variables in other namespaces")
              ELSE <<>>
         ELSE Issue(x, "VALIDATE_ILLEGAL_NUMERIC_ASSIGNMENT", e, "Illegal attempt to assign to the numeric match result variable '$" \o n.v[1] \o "'. Numeric variables are not assignable")
    [] OTHER -> <<>>

RECURSIVE IllegalAssignment(_, _)
\* There is no assignment in the default value of a parameter, other than in a lambda
IllegalAssignment(x, e) ==
  IF e.k = "AssignmentExpression" THEN Issue(x, "VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT", e, "Assignment not allowed here")
  ELSE IF e.k = "LambdaExpression" THEN <<>>
  ELSE Each(Children(e), LAMBDA c : IllegalAssignment(x, c))

RECURSIVE Query(_, _)
Query(x, e) ==
  LET Illegal == Issue(x, "VALIDATE_ILLEGAL_QUERY_EXPRESSION", e, "Illegal query expression. " \o UcAn(Label(e)) \o " cannot be used in a query") IN
  CASE e.k = "ComparisonExpression" -> IF e.v[1] \in {"==", "!="} THEN <<>> ELSE Illegal
    [] e.k = "ParenthesizedExpression" -> Query(x, Op1(e, 1))
    [] e.k \in {"VariableExpression", "QualifiedName", "LiteralInteger", "LiteralFloat", "LiteralString", "LiteralBoolean"} -> <<>>
    [] e.k \in {"AndExpression", "OrExpression"} -> Query(x, Op1(e, 1)) \o Query(x, Op1(e, 2))
    [] OTHER -> Illegal

RECURSIVE Idem(_)
\* Evaluation is known to have no effect
Idem(e) ==
  LET AllIdem(es) == \A i \in 1..Len(es) : Idem(es[i]) IN
  CASE e.k \in {"AccessExpression", "ConcatenatedString", "HeredocExpression", "LiteralList", "LiteralHash", "Nop", "SelectorExpression"} -> TRUE
    [] e.k = "BlockExpression" -> AllIdem(e.c[1])
    [] e.k \in {"CaseExpression", "CaseOption"} -> AllIdem(e.c[1]) /\ AllIdem(e.c[2])
    [] e.k \in {"IfExpression", "UnlessExpression"} -> Idem(Op1(e, 1)) /\ Idem(Op1(e, 2)) /\ Idem(Op1(e, 3))
    [] e.k = "ParenthesizedExpression" -> Idem(Op1(e, 1))
    [] e.k \in {"AssignmentExpression", "RelationshipExpression", "RenderExpression", "RenderStringExpression", "MatchExpression"} -> FALSE
    [] OTHER -> e.k \in BinaryKinds \cup UnaryKinds \cup LiteralKinds

IdemLast(x, e, body) ==
  LET es == body.c[1] IN
  IF es # <<>> /\ Idem(es[Len(es)])
  THEN Issue(x, "VALIDATE_IDEM_NOT_ALLOWED_LAST", es[Len(es)],
             "This " \o Label(es[Len(es)]) \o " has no effect. " \o UcAn(Label(e)) \o " can not end with a value-producing expression without other effect")
  ELSE <<>>

\* Where a definition may be: path are its ancestors, i the one to consider
RECURSIVE Top(_, _, _, _)
Top(x, e, path, i) ==
  IF i = 0 THEN <<>>
  ELSE IF path[i].k \in {"HostClassDefinition", "Program"} THEN <<>>
  ELSE IF path[i].k = "BlockExpression"
  THEN IF (i = 1 \/ path[i - 1].k # "Program") /\ e.k \in {"FunctionDefinition", "PlanDefinition", "TypeAlias", "TypeDefinition", "TypeMapping"}
       THEN Issue(x, "VALIDATE_NOT_ABSOLUTE_TOP_LEVEL", e, UcAn(Label(e)) \o " may only appear at top level")
       ELSE Top(x, e, path, i - 1)
  ELSE Issue(x, "VALIDATE_NOT_TOP_LEVEL", e, "Classes, definitions, and nodes may only appear at top level or inside other classes")
AtTop(x, e, path) == Top(x, e, path, Len(path))

ReservedName(x, e, name) ==
  IF Lower(name) \in ReservedTypeNames
  THEN Issue(x, "VALIDATE_RESERVED_TYPE_NAME", e, "The name: '" \o name \o "' is already defined by Puppet and can not be used as the name of " \o An(Label(e)))
  ELSE <<>>
FutureUse(x, e, w) == Issue(x, "VALIDATE_FUTURE_RESERVED_WORD", e, "Use of future reserved word: '" \o w \o "'")
FutureWord(x, e, w) == IF w \in FutureReservedWords THEN FutureUse(x, e, w) ELSE <<>>
IllegalName(x, e) ==
  Issue(x, "VALIDATE_ILLEGAL_DEFINITION_NAME", e, "Unacceptable name. The name '" \o e.v[1] \o "' is unacceptable as the name of " \o An(Label(e)))

UniqueParameters(x, ps) ==
  Each(Repeated(ps, LAMBDA p : p.v[1]),
       LAMBDA r : Issue(x, "VALIDATE_DUPLICATE_PARAMETER", r.e, "The parameter '" \o r.e.v[1] \o "' is declared more than once in the parameter list"))
\* A parameter that captures the rest must be last
CaptureLast(x, ps) ==
  Each(SubSeq(ps, 1, Len(ps) - 1), LAMBDA p : IF p.v[2] THEN Issue(x, "VALIDATE_CAPTURES_REST_NOT_LAST", p, "Parameter $" \o p.v[1] \o " is not last, and has 'captures rest'") ELSE <<>>)
NoCapture(x, e, ps) ==
  Each(ps, LAMBDA p : IF p.v[2] THEN Issue(x, "VALIDATE_CAPTURES_REST_NOT_SUPPORTED", p, "Parameter $" \o p.v[1] \o " has 'captures rest' - not supported in " \o An(Label(e))) ELSE <<>>)
NoReservedParameters(x, e, ps) ==
  Each(ps, LAMBDA p : IF p.v[1] \in ReservedParameters THEN Issue(x, "VALIDATE_RESERVED_PARAMETER", e, "The parameter $" \o p.v[1] \o " redefines a built in parameter in " \o An(Label(e))) ELSE <<>>)

IllegalExpression(x, e, feature, container) ==
  Issue(x, "VALIDATE_ILLEGAL_EXPRESSION", e, "Illegal expression. " \o UcAn(Label(e)) \o " is unacceptable as " \o feature \o " in " \o An(Label(container)))
Operand(e) == IF e.k = "AccessExpression" THEN Op1(e, 1) ELSE e
TypeRef(x, e, r) ==
  IF Operand(r).k = "QualifiedReference" THEN FutureWord(x, r, Lower(Operand(r).v[1])) ELSE IllegalExpression(x, r, "a type reference", e)
ReturnTypeRef(x, e, rs) == Each(rs, LAMBDA r : TypeRef(x, e, r))

NamedDefinition(x, e, path, ps) ==
  AtTop(x, e, path) \o (IF IsDefinitionName(Codes(e.v[1])) THEN <<>> ELSE IllegalName(x, e))
    \o ReservedName(x, e, e.v[1]) \o FutureWord(x, e, e.v[1]) \o UniqueParameters(x, ps)

Hostnames2(x, hs) ==
  Each(hs, LAMBDA h :
    LET v == Literal(h)
        Chars2 == Issue(x, "VALIDATE_ILLEGAL_HOSTNAME_CHARS", h, "The hostname '" \o Shown(v[1][2]) \o "' contains illegal characters (only letters, digits, '_', '-', and '.' are allowed)")
    IN CASE h.k = "ConcatenatedString" /\ v = <<>> ->
              Issue(x, "VALIDATE_ILLEGAL_HOSTNAME_INTERPOLATION", h, "An interpolated expression is not allowed in a hostname of a node")
         [] h.k \in {"ConcatenatedString", "LiteralString"} -> IF IsHostname(v[1][2]) THEN <<>> ELSE Chars2
         [] OTHER -> <<>>)

\* The defaults after the first
DuplicateDefaults(x, e, ds) ==
  Each(SubSeq(ds, 2, Len(ds)), LAMBDA d : Issue(x, "VALIDATE_DUPLICATE_DEFAULT", d, "This " \o Label(e) \o " already has a 'default' entry - this is a duplicate"))

\* Keys that are known to be equal to an earlier key
HashKey(k) == IF k.k \in {"LiteralList", "LiteralHash"} THEN <<"s", Text(ToPN(k))>> ELSE KeyOf(Literal(k)[1])
DuplicateKeys(x, e) ==
  LET known == SelectSeq(e.c[1], LAMBDA en : Literal(Op1(en, 1)) # <<>>)
  IN Each(Repeated(known, LAMBDA en : HashKey(Op1(en, 1))),
          LAMBDA r : Issue(x, "VALIDATE_DUPLICATE_KEY", r.e, "The key '" \o SourceOf(x, Op1(r.e, 1)) \o "' is declared more than once"))

NotVirtual(x, e) == IF e.v[1] = "regular" THEN <<>> ELSE Issue(x, "VALIDATE_NOT_VIRTUALIZABLE", e, "Resource Defaults/Overrides are not virtualizable")

Replacement(e) == e.k = "LiteralList" /\ Len(e.c[1]) = 2 /\ e.c[1][1].k = "RegexpExpression" /\ e.c[1][2].k = "LiteralString"
Mapping(x, e) ==
  LET t == Op1(e, 1)
      m == Op1(e, 2)
      runtime == t.k = "AccessExpression" /\ Op1(t, 1).k = "QualifiedReference" /\ Op1(t, 1).v[1] = "Runtime"
      pattern == runtime /\ Len(t.c[2]) = 2 /\ Replacement(t.c[2][2])
      Single == Issue(x, "VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING", e, "Illegal type mapping. Expected a Type on the left side, got a Type Mapping")
      Regexp == Issue(x, "VALIDATE_ILLEGAL_REGEXP_TYPE_MAPPING", e, "Illegal type mapping. Expected a Tuple[Regexp,String] on the left side, got a Type Mapping")
  IN IF ~runtime THEN Issue(x, "VALIDATE_UNSUPPORTED_EXPRESSION", e, "Expressions of type a Type Mapping are not supported in this version of Puppet")
     ELSE IF pattern THEN IF Replacement(m) THEN <<>> ELSE Regexp
     ELSE IF ~Replacement(m) /\ Operand(m).k = "QualifiedReference" THEN <<>> ELSE Single

Component(x, e) ==
  LET c == Op1(e, 1)
      access == c.k = "AccessExpression" /\ Op1(c, 1).k = "QualifiedReference" /\ Len(c.c[2]) = 1
                  /\ c.c[2][1].k \in {"LiteralString", "QualifiedName", "QualifiedReference"}
      Bad(at, name) == Issue(x, "VALIDATE_ILLEGAL_CLASSREF", at, "Illegal type reference. The given name '" \o name \o "' does not conform to the naming rule")
  IN (CASE c.k = "QualifiedReference" \/ access -> <<>>
        [] c.k = "QualifiedName" -> Bad(c, c.v[1])
        [] OTHER -> IllegalExpression(x, c, "capability mapping", e))
     \o (IF IsTypeRefName(Codes(e.v[2])) THEN <<>> ELSE Bad(e, e.v[2]))

\* The rules for a node e with ancestors path
PuppetRules(x, e, path) ==
  LET k == e.k
      container == IF path = <<>> THEN NoNode ELSE path[Len(path)]
      Values(es) == Each(es, LAMBDA c : RValue(x, c))
  IN
  CASE k = "StepExpression" ->
         Issue(x, "VALIDATE_WORKFLOW_OPERATION_NOT_SUPPORTED", e, "The workflow operation '" \o SourceOf(x, e) \o "' is only available when compiling workflows")
    [] k = "AssignmentExpression" ->
         IF e.v[1] = "=" THEN Assign(x, Op1(e, 1))
         ELSE Issue(x, "VALIDATE_APPENDS_DELETES_NO_LONGER_SUPPORTED", e, "The operator '" \o e.v[1] \o "' is no longer supported. See http://links.puppet.com/remove-plus-equals")
    [] k = "AttributeOperation" ->
         IF e.v[1] # "+>" \/ container.k \in {"CollectExpression", "ResourceOverrideExpression"} THEN <<>>
         ELSE Issue(x, "VALIDATE_ILLEGAL_ATTRIBUTE_APPEND", e, "Illegal +> operation on attribute " \o e.v[2] \o ". This operator can not be used in " \o An(Label(container)))
    [] k = "AttributesOperation" ->
         (IF container.k \in ResourceKinds \cup {"CollectExpression", "CapabilityMapping"}
          THEN Issue(x, "VALIDATE_UNSUPPORTED_OPERATOR_IN_CONTEXT", container, "The operator '* =>' in " \o An(Label(container)) \o " is not supported")
          ELSE <<>>) \o RValue(x, Op1(e, 1))
    [] k = "BlockExpression" ->
         LET es == e.c[1]
             idem == {i \in 1..(Len(es) - 1) : Idem(es[i])}
             first == es[CHOOSE i \in idem : \A j \in idem : i <= j]
         IN IF idem = {} THEN <<>>
            ELSE Issue(x, "VALIDATE_IDEM_EXPRESSION_NOT_LAST", first,
                       "This " \o Label(first) \o " has no effect. A value was produced and then forgotten (one or more preceding expressions may have the wrong form)")
    [] k = "CallNamedFunctionExpression" ->
         IF Op1(e, 1).k = "QualifiedName" \/ Operand(Op1(e, 1)).k = "QualifiedReference" THEN <<>> ELSE IllegalExpression(x, Op1(e, 1), "function name", e)
    [] k = "CapabilityMapping" -> Component(x, e)
    [] k = "CaseExpression" ->
         RValue(x, Op1(e, 1)) \o DuplicateDefaults(x, e, SelectSeq(Flatten([i \in 1..Len(e.c[2]) |-> e.c[2][i].c[1]]), LAMBDA v : v.k = "LiteralDefault"))
    [] k = "CaseOption" -> Values(e.c[1])
    [] k = "CollectExpression" -> IF Op1(e, 1).k = "QualifiedReference" THEN <<>> ELSE IllegalExpression(x, Op1(e, 1), "type name", e)
    [] k = "EppExpression" -> IF container.k = "LambdaExpression" THEN NoCapture(x, container, container.c[1]) \o UniqueParameters(x, container.c[1]) ELSE <<>>
    [] k \in {"FunctionDefinition", "PlanDefinition"} -> NamedDefinition(x, e, path, e.c[1]) \o CaptureLast(x, e.c[1]) \o ReturnTypeRef(x, e, e.c[2])
    [] k \in {"HostClassDefinition", "ResourceTypeDefinition"} ->
         NamedDefinition(x, e, path, e.c[1]) \o NoCapture(x, e, e.c[1]) \o NoReservedParameters(x, e, e.c[1]) \o IdemLast(x, e, Op1(e, 2))
    [] k \in {"IfExpression", "UnlessExpression"} -> RValue(x, Op1(e, 1))
    [] k = "KeyedEntry" -> RValue(x, Op1(e, 1)) \o RValue(x, Op1(e, 2))
    [] k = "LambdaExpression" -> CaptureLast(x, e.c[1]) \o ReturnTypeRef(x, e, e.c[3])
    [] k = "LiteralHash" -> DuplicateKeys(x, e)
    [] k = "LiteralList" -> Values(e.c[1])
    [] k = "NamedAccessExpression" -> IF Op1(e, 2).k = "QualifiedName" THEN <<>> ELSE IllegalExpression(x, Op1(e, 2), "method name", container)
    [] k = "NodeDefinition" -> Hostnames2(x, e.c[2]) \o AtTop(x, e, path) \o IdemLast(x, e, Op1(e, 3))
    [] k = "Parameter" ->
         (IF IsDigit(At(Codes(e.v[1]), 1))
          THEN Issue(x, "VALIDATE_ILLEGAL_NUMERIC_PARAMETER", e, "The numeric parameter name '$" \o e.v[1] \o "' cannot be used (clashes with numeric match result variables)")
          ELSE IF IsParamName(Codes(e.v[1])) THEN <<>>
          ELSE Issue(x, "VALIDATE_ILLEGAL_PARAMETER_NAME", e, "Illegal parameter name. The given name '" \o e.v[1] \o "' does not conform to the naming rule /^[a-z_]\\w*$/"))
         \o Each(e.c[2], LAMBDA v : IllegalAssignment(x, v))
    [] k = "RelationshipExpression" ->
         Each(<<Op1(e, 1), Op1(e, 2)>>, LAMBDA c : IF c.k \in {"CollectExpression", "RelationshipExpression"} THEN <<>> ELSE RValue(x, c))
    [] k = "ReservedWord" ->
         IF e.v[2] THEN FutureUse(x, e, e.v[1])
         ELSE Issue(x, "VALIDATE_RESERVED_WORD", e, "Use of reserved word: " \o e.v[1] \o ", must be quoted if intended to be a String value")
    [] k = "ResourceBody" ->
         LET us == SelectSeq(e.c[2], LAMBDA o : o.k = "AttributesOperation")
         IN Each(SubSeq(us, 2, Len(us)), LAMBDA o : Issue(x, "VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD", o, "Unfolding of attributes from Hash can only be used once per resource body"))
    [] k \in {"ResourceDefaultsExpression", "ResourceOverrideExpression"} -> NotVirtual(x, e)
    [] k = "ResourceExpression" -> IF Op1(e, 1).k = "QualifiedName" /\ Op1(e, 1).v[1] = "class" THEN NotVirtual(x, e) ELSE <<>>
    [] k = "SelectorEntry" -> RValue(x, Op1(e, 1))
    [] k = "SelectorExpression" -> RValue(x, Op1(e, 1)) \o DuplicateDefaults(x, e, SelectSeq(e.c[2], LAMBDA s : Op1(s, 1).k = "LiteralDefault"))
    [] k = "TypeAlias" ->
         AtTop(x, e, path) \o (IF IsTypeName(Codes(e.v[1])) THEN <<>> ELSE IllegalName(x, e)) \o ReservedName(x, e, e.v[1]) \o TypeRef(x, e, Op1(e, 1))
    [] k = "TypeMapping" -> AtTop(x, e, path) \o Mapping(x, e)
    [] k \in {"VirtualQuery", "ExportedQuery"} -> IF e.c[1] = <<>> \/ Op1(e, 1).k = "Nop" THEN <<>> ELSE Query(x, Op1(e, 1))
    [] k \in BinaryKinds -> RValue(x, Op1(e, 1)) \o RValue(x, Op1(e, 2))
    [] k \in UnaryKinds -> RValue(x, Op1(e, 1))
    [] OTHER -> <<>>

Rules(x, e, path) ==
  IF x.sort \in {"3", "4"} /\ e.k \in CatalogKinds
  THEN Issue(x, "VALIDATE_CATALOG_OPERATION_NOT_SUPPORTED", e, "The catalog operation '" \o SourceOf(x, e) \o "' is only available when compiling a catalog")
  ELSE IF x.sort = "4" /\ e.k = "StepExpression"
  THEN IF e.v[2] \in StepStyles THEN <<>>
       ELSE Issue(x, "VALIDATE_INVALID_STEP_STYLE", e, "Expected one of 'for', 'function', 'guard', 'resource', or 'workflow'. Got '" \o e.v[2] \o "'")
  ELSE PuppetRules(x, e, path)

RECURSIVE Below(_, _, _, _, _)
Below(x, path, es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE Below(x, path, es, i + 1, Below(x, Append(path, es[i]), Children(es[i]), 1, acc \o Rules(x, es[i], path)))
Validate(src, e, sort) == Below([src |-> src, B |-> ByteOffsets(src), sort |-> sort], <<>>, <<e>>, 1, <<>>)
=============================================================================
