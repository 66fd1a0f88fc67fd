------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* The value of an expression that can be told without evaluation.  It is  *)
(* <<>> when there is none, and <<v>> otherwise where v is one of          *)
(*    <<"undef">>  <<"s", code points>>  <<"b", boolean>>                  *)
(*    <<"i", decimal numeral>>  <<"f", float>>  <<"?", description>>       *)
(*    <<"l", values>>  <<"h", <<key, value>> ...>>                         *)
(* A hash has its keys in the order they first appear, and the last value  *)
(* given for each.                                                         *)
(***************************************************************************)
EXTENDS Syntax

NameKinds == {"QualifiedName", "QualifiedReference", "ReservedWord"}
LiteralKinds == NameKinds \cup {"LiteralBoolean", "LiteralDefault", "LiteralFloat", "LiteralInteger", "LiteralString", "LiteralUndef",
                                "RegexpExpression", "RenderStringExpression"}

\* The same key. The two zeros are equal
KeyOf(v) == IF v = <<"f", "-0e0">> THEN <<"f", "0e0">> ELSE v

RECURSIVE Distinct(_, _, _), Last(_, _, _)
Distinct(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE IF \E j \in 1..Len(acc) : KeyOf(acc[j]) = KeyOf(es[i][1]) THEN Distinct(es, i + 1, acc) ELSE Distinct(es, i + 1, Append(acc, es[i][1]))
Last(es, k, i) == IF KeyOf(es[i][1]) = KeyOf(k) THEN es[i][2] ELSE Last(es, k, i - 1)

RECURSIVE Literal(_)
Literal(e) ==
  LET k == e.k
      All(es) == [i \in 1..Len(es) |-> Literal(es[i])]
      Known(vs) == \A i \in 1..Len(vs) : vs[i] # <<>>
  IN
  CASE k \in {"Program", "HeredocExpression"} -> Literal(e.c[1][1])
    [] k = "LiteralList" -> LET vs == All(e.c[1]) IN IF Known(vs) THEN <<<<"l", [i \in 1..Len(vs) |-> vs[i][1]]>>>> ELSE <<>>
    [] k = "LiteralHash" ->
         LET ks == [i \in 1..Len(e.c[1]) |-> Literal(e.c[1][i].c[1][1])]
             vs == [i \in 1..Len(e.c[1]) |-> Literal(e.c[1][i].c[2][1])]
             es == [i \in 1..Len(ks) |-> <<ks[i][1], vs[i][1]>>]
             ds == Distinct(es, 1, <<>>)
         IN IF ~Known(ks) \/ ~Known(vs) THEN <<>>
            ELSE IF \E i \in 1..Len(ks) : ks[i][1][1] \in {"l", "h"} THEN <<>>
            ELSE <<<<"h", [i \in 1..Len(ds) |-> <<ds[i], Last(es, ds[i], Len(es))>>]>>>>
    [] k = "ConcatenatedString" ->
         IF Len(e.c[1]) = 1 /\ e.c[1][1].k = "LiteralString" THEN <<<<"s", e.c[1][1].v[1]>>>> ELSE <<>>
    [] k \in NameKinds -> <<<<"s", Codes(e.v[1])>>>>
    [] k \in {"LiteralString", "RegexpExpression", "RenderStringExpression"} -> <<<<"s", e.v[1]>>>>
    [] k = "LiteralBoolean" -> <<<<"b", e.v[1]>>>>
    [] k = "LiteralInteger" -> <<<<"i", e.v[1]>>>>
    [] k = "LiteralFloat" -> <<<<"f", e.v[1]>>>>
    [] k = "LiteralUndef" -> <<<<"undef">>>>
    [] k = "LiteralDefault" -> <<<<"?", "parser.Default {}">>>>
    [] OTHER -> <<>>

Literals(ns) == [i \in 1..Len(ns) |-> Literal(ns[i])]
=============================================================================
