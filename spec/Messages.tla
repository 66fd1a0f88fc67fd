------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* The words of messages: the labels of expressions, and the message of    *)
(* each error that parsing can end with.                                   *)
(***************************************************************************)
EXTENDS Syntax

\* Anything that is not printable is shown as a question mark
Shown(cs) == Folds!FoldLeft(LAMBDA acc, c : acc \o (IF c >= 32 /\ c <= 126 THEN AsciiChars[c - 31] ELSE "?"), "", cs)

IsTuple(v) == SubSeq(ToString(v), 1, 1) = "<"
Arg(args, key) ==
  LET v == (CHOOSE i \in 1..Len(args) : args[i][1] = key)
  IN IF IsTuple(args[v][2]) THEN Shown(args[v][2]) ELSE args[v][2]

OperatorKinds == {"ArithmeticExpression", "AssignmentExpression", "AttributeOperation", "ComparisonExpression", "MatchExpression", "RelationshipExpression"}
LabelOf == [
  AccessExpression |-> "'[]' expression", AndExpression |-> "'and' expression", Application |-> "Application",
  AttributesOperation |-> "AttributesOperation", BlockExpression |-> "Block Expression", CallFunctionExpression |-> "Function Call",
  CallMethodExpression |-> "Method Call", CallNamedFunctionExpression |-> "Function Call", CapabilityMapping |-> "Capability Mapping",
  CaseExpression |-> "'case' statement", CaseOption |-> "CaseOption", CollectExpression |-> "CollectExpression",
  ConcatenatedString |-> "Concatenated String", EppExpression |-> "Epp Template", ExportedQuery |-> "Exported Query",
  FunctionDefinition |-> "Function Definition", HeredocExpression |-> "Heredoc", HostClassDefinition |-> "Host Class Definition",
  IfExpression |-> "'if' statement", InExpression |-> "'in' expression", KeyedEntry |-> "Hash Entry", LambdaExpression |-> "Lambda",
  LiteralBoolean |-> "Literal Boolean", LiteralDefault |-> "'default' expression", LiteralFloat |-> "Literal Float",
  LiteralHash |-> "Hash Expression", LiteralInteger |-> "Literal Integer", LiteralList |-> "Array expression",
  LiteralString |-> "Literal String", LiteralUndef |-> "'undef' expression", NamedAccessExpression |-> "'.' expression",
  NodeDefinition |-> "Node Definition", Nop |-> "Nop", NotExpression |-> "'!' expression", OrExpression |-> "'or' expression",
  Parameter |-> "Parameter Definition", ParenthesizedExpression |-> "Parenthesized Expression", PlanDefinition |-> "Plan Definition",
  Program |-> "Program", QualifiedName |-> "Name", QualifiedReference |-> "Type-Name", RegexpExpression |-> "Regular Expression",
  RenderExpression |-> "Epp Interpolated Expression", RenderStringExpression |-> "Epp Text", ResourceBody |-> "Resource Instance Definition",
  ResourceDefaultsExpression |-> "Resource Defaults Expression", ResourceExpression |-> "Resource Statement",
  ResourceOverrideExpression |-> "Resource Override", ResourceTypeDefinition |-> "'define' expression", SelectorEntry |-> "Selector option",
  SelectorExpression |-> "Selector expression", SiteDefinition |-> "Site Definition", StepExpression |-> "Step",
  TextExpression |-> "Text expression", TypeAlias |-> "Type Alias", TypeDefinition |-> "Type Definition", TypeMapping |-> "Type Mapping",
  UnaryMinusExpression |-> "Unary Minus", UnfoldExpression |-> "Unfold", UnlessExpression |-> "'unless' statement",
  VariableExpression |-> "Variable", VirtualQuery |-> "Virtual Query" ]

\* what an expression is called. NoNode: there is none
NoNode == N("none", 0, 0, <<>>, <<>>)
Label(e) ==
  IF e.k \in OperatorKinds THEN "'" \o e.v[1] \o "' expression"
  ELSE IF e.k = "ReservedWord" THEN "Reserved Word '" \o e.v[1] \o "'"
  ELSE IF e.k = "none" THEN "value of type <nil>"
  ELSE LabelOf[e.k]
Vowels == {"A", "E", "I", "O", "U", "Y", "a", "e", "i", "o", "u", "y"}
An(label) == (IF SubSeq(label, 1, 1) \in Vowels THEN "an " ELSE "a ") \o label
UcAn(label) == (IF SubSeq(label, 1, 1) \in Vowels THEN "An " ELSE "A ") \o label

FixedMessages == [
  LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME |-> ":: not followed by name segment",
  LEX_DIGIT_EXPECTED |-> "digit expected",
  LEX_HEREDOC_DECL_UNTERMINATED |-> "unterminated @(",
  LEX_HEREDOC_EMPTY_TAG |-> "empty heredoc tag",
  LEX_HEREDOC_MULTIPLE_ESCAPE |-> "more than one declaration of escape flags in heredoc",
  LEX_HEREDOC_MULTIPLE_SYNTAX |-> "more than one syntax declaration in heredoc",
  LEX_HEREDOC_MULTIPLE_TAG |-> "more than one tag declaration in heredoc",
  LEX_HEREDOC_UNTERMINATED |-> "unterminated heredoc",
  LEX_HEXDIGIT_EXPECTED |-> "hexadecimal digit expected",
  LEX_INVALID_NAME |-> "invalid name",
  LEX_INVALID_TYPE_NAME |-> "invalid type name",
  LEX_INVALID_VARIABLE_NAME |-> "invalid variable name",
  LEX_MALFORMED_HEX_ESCAPE |-> "malformed hexadecimal escape sequence",
  LEX_MALFORMED_INTERPOLATION |-> "malformed interpolation expression",
  LEX_MALFORMED_UNICODE_ESCAPE |-> "malformed unicode escape sequence",
  LEX_OCTALDIGIT_EXPECTED |-> "octal digit expected",
  LEX_UNBALANCED_EPP_COMMENT |-> "unbalanced epp comment",
  LEX_UNTERMINATED_COMMENT |-> "unterminated /* */ comment",
  PARSE_CLASS_NOT_VALID_HERE |-> "'class' keyword not allowed at this location",
  PARSE_ELSIF_IN_UNLESS |-> "elsif not supported in unless expression",
  PARSE_EXPECTED_STEP_STYLE |-> "expected one of 'action', 'resource', or 'workflow'",
  PARSE_EXPECTED_ATTRIBUTE_NAME |-> "expected attribute name",
  PARSE_EXPECTED_CLASS_NAME |-> "expected name of class",
  PARSE_EXPECTED_FARROW_AFTER_KEY |-> "expected '=>' to follow hash key",
  PARSE_EXPECTED_HOSTNAME |-> "hostname expected",
  PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT |-> "expected name or number to follow '.'",
  PARSE_EXPECTED_NAME_AFTER_FUNCTION |-> "expected a name to follow keyword 'function'",
  PARSE_EXPECTED_NAME_AFTER_PLAN |-> "expected a name to follow keyword 'plan'",
  PARSE_EXPECTED_TITLE |-> "resource title expected",
  PARSE_EXPECTED_TYPE_NAME |-> "expected type name",
  PARSE_EXPECTED_TYPE_NAME_AFTER_TYPE |-> "expected type name to follow 'type'",
  PARSE_EXPECTED_VARIABLE |-> "expected variable declaration",
  PARSE_EXTRANEOUS_COMMA |-> "Extraneous comma between statements",
  PARSE_ILLEGAL_EPP_PARAMETERS |-> "Ambiguous EPP parameter expression. Probably missing '<%-' before parameters to remove leading whitespace",
  PARSE_INVALID_ATTRIBUTE |-> "invalid attribute operation",
  PARSE_INVALID_RESOURCE |-> "invalid resource expression",
  PARSE_INHERITS_MUST_BE_TYPE_NAME |-> "expected type name to follow 'inherits'",
  PARSE_QUOTED_NOT_VALID_NAME |-> "a quoted string is not valid as a name at this location" ]

\* The message for a text that is not a program
ParseMessage(o) ==
  LET A(key) == Arg(o.args, key) IN
  CASE o.code = "NUL" -> "invalid NUL character at offset " \o ToString(o.pos)
    [] o.code = "UNICODE" -> "invalid unicode character at offset " \o ToString(o.pos)
    [] o.code = "LEX_HEREDOC_ILLEGAL_ESCAPE" -> "illegal heredoc escape '" \o A("flag") \o "'"
    [] o.code = "LEX_INVALID_OPERATOR" -> "invalid operator '" \o A("op") \o "'"
    [] o.code = "LEX_NUMBER_OUT_OF_RANGE" -> "number '" \o A("number") \o "' is out of range"
    [] o.code = "LEX_UNEXPECTED_TOKEN" -> "unexpected token '" \o A("token") \o "'"
    [] o.code = "LEX_UNTERMINATED_STRING" -> "unterminated " \o A("string_type") \o " quoted string"
    [] o.code = "PARSE_EXPECTED_STEP_NAME" -> "expected " \o A("step") \o " name"
    [] o.code = "PARSE_EXPECTED_STEP_OPERATION" -> "expected one of 'delete', 'read', or 'upsert'. Got '" \o A("operation") \o "'"
    [] o.code = "PARSE_EXPECTED_ITERATOR_STYLE" -> "expected one of 'each', 'range', or 'times'. Got '" \o A("style")
    [] o.code = "PARSE_EXPECTED_ONE_OF_TOKENS" -> "expected one of " \o A("expected") \o ", got '" \o A("actual") \o "'"
    [] o.code = "PARSE_EXPECTED_TOKEN" -> "expected token '" \o A("expected") \o "', got '" \o A("actual") \o "'"
    [] o.code = "PARSE_INVALID_STEP_ATTRIBUTE" -> "Attribute '" \o A("name") \o "' is not valid in a '" \o A("style") \o "' definition"
    [] o.code = "PARSE_RESOURCE_WITHOUT_TITLE" -> "This expression is invalid. Did you try declaring a '" \o A("name") \o "' resource without a title?"
    [] o.code \in DOMAIN FixedMessages -> FixedMessages[o.code]
=============================================================================
