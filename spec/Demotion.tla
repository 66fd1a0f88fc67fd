------------------------------ MODULE Demotion ------------------------------
(***************************************************************************)
(* How severe what a validator reports is.  A validator is born with the   *)
(* severities of the issues that can be demoted; whoever owns it may       *)
(* change them, one issue at a time, and only for that validator.  An      *)
(* issue with severity ignore is not reported.  Hard issues are errors for *)
(* ever.  Besides those that come with the parser ("0" to "4") there are   *)
(* validators that users make ("o"), which see every node with what it is  *)
(* contained in, and report what they want.                                *)
(***************************************************************************)
EXTENDS Facets

Soft == {"VALIDATE_DUPLICATE_KEY", "VALIDATE_FUTURE_RESERVED_WORD", "VALIDATE_IDEM_EXPRESSION_NOT_LAST"}
Hard == {"VALIDATE_APPENDS_DELETES_NO_LONGER_SUPPORTED", "VALIDATE_CAPTURES_REST_NOT_LAST", "VALIDATE_CAPTURES_REST_NOT_SUPPORTED",
  "VALIDATE_CATALOG_OPERATION_NOT_SUPPORTED", "VALIDATE_CROSS_SCOPE_ASSIGNMENT", "VALIDATE_DUPLICATE_DEFAULT", "VALIDATE_DUPLICATE_PARAMETER",
  "VALIDATE_IDEM_NOT_ALLOWED_LAST", "VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT", "VALIDATE_ILLEGAL_ASSIGNMENT_VIA_INDEX",
  "VALIDATE_ILLEGAL_ATTRIBUTE_APPEND", "VALIDATE_ILLEGAL_CLASSREF", "VALIDATE_ILLEGAL_DEFINITION_NAME", "VALIDATE_ILLEGAL_EXPRESSION",
  "VALIDATE_ILLEGAL_HOSTNAME_CHARS", "VALIDATE_ILLEGAL_HOSTNAME_INTERPOLATION", "VALIDATE_ILLEGAL_NUMERIC_ASSIGNMENT",
  "VALIDATE_ILLEGAL_NUMERIC_PARAMETER", "VALIDATE_ILLEGAL_PARAMETER_NAME", "VALIDATE_ILLEGAL_QUERY_EXPRESSION",
  "VALIDATE_ILLEGAL_REGEXP_TYPE_MAPPING", "VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING", "VALIDATE_INVALID_SOURCE", "VALIDATE_INVALID_STEP_STYLE",
  "VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD", "VALIDATE_NOT_ABSOLUTE_TOP_LEVEL", "VALIDATE_NOT_RVALUE", "VALIDATE_NOT_TOP_LEVEL",
  "VALIDATE_NOT_VIRTUALIZABLE", "VALIDATE_RESERVED_PARAMETER", "VALIDATE_RESERVED_TYPE_NAME", "VALIDATE_RESERVED_WORD",
  "VALIDATE_UNSUPPORTED_EXPRESSION", "VALIDATE_UNSUPPORTED_OPERATOR_IN_CONTEXT", "VALIDATE_WORKFLOW_OPERATION_NOT_SUPPORTED",
  "PARSE_EXPECTED_TOKEN", "LEX_UNEXPECTED_TOKEN", "PARSE_ILLEGAL_EPP_PARAMETERS"}

\* Severities by number, as users say them
Levels == <<"ignore", "deprecation", "warning", "error">>

\* The severities that a validator is born with
AtBirth(sort) == IF sort = "o" THEN [c \in Soft |-> "error"] ELSE [c \in Soft |-> SeverityOf(sort, c)]

DemoteAnswer(code, level) ==
  IF code \notin Soft \cup Hard THEN "unknown"
  ELSE IF level \notin 1..Len(Levels) THEN "level"
  ELSE IF code \in Hard THEN "hard"
  ELSE "ok"
Demoted(sev, code, level) == IF DemoteAnswer(code, level) = "ok" THEN [sev EXCEPT ![code] = Levels[level]] ELSE sev

\* Ways to say how strict a validator of Puppet code is
StrictAnswer(said) == LET s == Lower(said) IN IF s \in {"", "off"} THEN "off" ELSE IF s \in {"warning", "error"} THEN s ELSE "invalid"

(************************ validators that users make ************************)
\* x: [src, B, sort]
OwnRules(x, e) ==
  LET Is(code, message) == <<<<code, "error">> \o LineCol(x.src, IndexOf(x.src, x.B, e.o)) \o <<message>>>> IN
  CASE e.k = "LiteralInteger" -> Is("VALIDATE_DUPLICATE_KEY", "The key '" \o e.v[1] \o "' is declared more than once")
    [] e.k = "QualifiedName" -> Is("VALIDATE_FUTURE_RESERVED_WORD", "Use of future reserved word: '" \o e.v[1] \o "'")
    [] e.k = "VariableExpression" -> Is("VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT", "Assignment not allowed here")
    [] e.k \in {"BlockExpression", "LiteralList"} ->
         Is("VALIDATE_IDEM_EXPRESSION_NOT_LAST",
            "This " \o Label(e) \o " has no effect. A value was produced and then forgotten (one or more preceding expressions may have the wrong form)")
    [] OTHER -> <<>>
OwnIssues(src, e) ==
  LET x == [src |-> src, B |-> ByteOffsets(src), sort |-> "o"]
      ns == Preorder(e)
      RECURSIVE Go(_, _)
      Go(i, acc) == IF i > Len(ns) THEN acc ELSE Go(i + 1, acc \o OwnRules(x, ns[i]))
  IN Go(1, <<>>)

Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* Every node with what it is contained in, from the inside out
Containers(e) == LET vs == Visits(<<>>, <<e>>, 1, <<>>) IN [i \in 1..Len(vs) |-> Backwards(vs[i])]

(******************************* all of them ********************************)
\* What is found, whatever the severities
Found(src, e, sort) == IF sort = "o" THEN OwnIssues(src, e) ELSE Validate(src, e, IF sort \in {"0", "1", "2"} THEN "2" ELSE sort)

Weight(sev, code) == IF code \in Soft THEN sev[code] ELSE "error"
RECURSIVE Weighed(_, _, _, _)
\* What is reported of what is found
Weighed(is, sev, i, acc) ==
  IF i > Len(is) THEN acc
  ELSE LET w == Weight(sev, is[i][1])
       IN Weighed(is, sev, i + 1, IF w = "ignore" THEN acc ELSE Append(acc, [is[i] EXCEPT ![2] = w]))
Reported(src, e, sort, sev) == Weighed(Found(src, e, sort), sev, 1, <<>>)

\* An issue that nobody demoted is as Validate has it
Undemoted(src, e, sort) == sort # "o" => Reported(src, e, sort, AtBirth(sort)) = Validate(src, e, sort)
=============================================================================
