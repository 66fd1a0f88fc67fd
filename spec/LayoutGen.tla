------------------------------ MODULE LayoutGen -----------------------------
(***************************************************************************)
(* All sequences of tokens up to a length, with nothing, a layout within a *)
(* line, or one across lines between each two and at the end.  In each     *)
(* state, all ways to lay the tokens out in that way must mean the same.   *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

\* [tokens: tuples of code points, depth, mode, variants: how many ways to compare]
Setup == JsonDeserialize(IOEnv.SETUP)
VARIABLE ts      \* <<<<token, gap after it>>...>>. A gap is "", "h" or "n"

RECURSIVE Render(_, _, _, _)
Render(x, i, k, acc) ==
  IF i > Len(x) THEN acc
  ELSE LET t == Setup.tokens[x[i][1]]
           g == x[i][2]
           n == k * 3 + i * 5
           gap == IF g = "" THEN <<>> ELSE IF g = "h" THEN Within[IF k = 0 THEN 1 ELSE (n % Len(Within)) + 1] ELSE Across[IF k = 0 THEN 1 ELSE (n % Len(Across)) + 1]
       IN Render(x, i + 1, k, acc \o t \o gap)

Init == ts = <<>>
Next == Len(ts) < Setup.depth /\ \E i \in 1..Len(Setup.tokens), g \in {"", "h", "n"} : ts' = Append(ts, <<i, g>>)

Check(x) ==
  LET r == ToString(Meaning(Render(x, 1, 0, <<>>), Setup.mode))
  IN /\ \A k \in 1..Setup.variants :
          LET s == Render(x, 1, k, <<>>)
          IN ToString(Meaning(s, Setup.mode)) = r \/ PrintT("@" \o ToJson([bad |-> s]))
     /\ PrintT("@" \o ToJson([s |-> [k \in 1..(Setup.variants + 1) |-> Render(x, 1, k - 1, <<>>)], r |-> r]))
Holds(P(_)) == ts # <<>> => P(ts)
Insensitive == Holds(Check)
Spec == Init /\ [][Next]_ts
=============================================================================
