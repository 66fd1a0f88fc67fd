------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* A reader and a lexer over the same text, which their user moves about.  *)
(* State: i, where the reader is (a byte offset); lx, the lexer; read, the *)
(* tokens that were read; stuck, when the lexer has come upon an error.    *)
(* Operations:                                                             *)
(*   next, peek, advance, at, set, from     of the reader                  *)
(*   token, current, move, assert           of the lexer                   *)
(***************************************************************************)
EXTENDS Observe

Born(src) == [i |-> 0, lx |-> NewReader(src, [NoMode EXCEPT !.ast = FALSE]), read |-> <<>>, stuck |-> FALSE]

\* What is at a byte offset: <<"end">>, <<"bad", error>>, or <<"char", code point, how many bytes>>
Seen(lx, b) ==
  LET found == {j \in 1..Len(lx.src) : lx.B[j] = b}
      j == CHOOSE j \in found : TRUE
  IN IF b >= lx.B[Len(lx.B)] THEN <<"end">>
     ELSE IF found = {} THEN <<"bad", "UNICODE">>
     ELSE IF lx.src[j] < 0 THEN <<"bad", BadCode(lx.src[j])>>
     ELSE <<"char", lx.src[j], lx.B[j + 1] - b>>

IndexOfByte(lx, b) == CHOOSE j \in 1..Len(lx.B) : lx.B[j] = b
Failed(lx, t) ==
  IF t.err.c \in {"NUL", "UNICODE"} THEN <<t.err.c, 0, t.err.b, <<>>>>
  ELSE LET i == IndexAt(lx, t.err.b) IN <<t.err.c, LineOf(lx.src, i), PosOf(lx.src, i), t.err.a>>
Where(lx) == <<TokName(lx.cur), LineOf(lx.src, lx.p), PosOf(lx.src, lx.p)>> \o (IF lx.cur \in Keywords THEN <<"keyword">> ELSE <<>>)

\* The text between two byte offsets, as code points
Between(lx, a, b) == SubSeq(lx.src, IndexOfByte(lx, a), IndexOfByte(lx, b) - 1)

\* [st, out]
Act(st, op) ==
  LET k == op[1]
      Same(out) == [st |-> st, out |-> out]
      lx == st.lx
      s == Seen(lx, st.i)
  IN CASE k = "next" ->
            IF s[1] = "end" THEN Same(<<0>>)
            ELSE IF s[1] = "bad" THEN Same(<<s[2], 0, st.i, <<>>>>)
            ELSE [st |-> [st EXCEPT !.i = @ + s[3]], out |-> <<s[2], st.i>>]
       [] k = "peek" ->
            IF s[1] = "end" THEN Same(<<0, 0>>) ELSE IF s[1] = "bad" THEN Same(<<s[2], 0, st.i, <<>>>>) ELSE Same(<<s[2], s[3]>>)
       \* over what is seen, if anything is
       [] k = "advance" -> IF s[1] = "char" THEN [st |-> [st EXCEPT !.i = @ + s[3]], out |-> <<>>] ELSE Same(<<>>)
       [] k = "at" -> Same(<<st.i>>)
       [] k = "set" -> [st |-> [st EXCEPT !.i = op[2]], out |-> <<>>]
       \* what was read since, if that is whole characters
       [] k = "from" ->
            IF st.i <= lx.B[Len(lx.B)] /\ op[2] <= st.i /\ {op[2], st.i} \subseteq {lx.B[j] : j \in 1..Len(lx.B)}
            THEN Same(Between(lx, op[2], st.i)) ELSE Same(<<"none">>)
       [] k = "move" ->
            LET j == IndexOfByte(lx, op[2])
            IN IF st.stuck THEN Same(<<"stuck">>) ELSE [st |-> [st EXCEPT !.lx = [lx EXCEPT !.p = j, !.bol = LineStart(lx.src, j)]], out |-> <<>>]
       [] st.stuck -> Same(<<"stuck">>)
       [] k = "token" ->
            LET t == NextTok(lx)
            IN IF t.cur = "ERR" THEN [st |-> [st EXCEPT !.stuck = TRUE], out |-> Failed(lx, t)]
               ELSE [st |-> [st EXCEPT !.lx = t, !.read = Append(@, t.cur)], out |-> Where(t)]
       [] k = "current" -> Same(Where(lx))
       [] k = "assert" ->
            LET want == IF op[2] > Len(st.read) THEN "EOF" ELSE st.read[op[2]]
            IN IF lx.cur = want THEN Same(<<>>)
               ELSE [st |-> [st EXCEPT !.lx = [lx EXCEPT !.p = lx.ts]],
                     out |-> <<"PARSE_EXPECTED_TOKEN", LineOf(lx.src, lx.ts), PosOf(lx.src, lx.ts), <<<<"actual", TokName(lx.cur)>>, <<"expected", TokName(want)>>>>>>]

RECURSIVE Run(_, _, _, _)
Run(st, ops, i, acc) == IF i > Len(ops) THEN acc ELSE LET r == Act(st, ops[i]) IN Run(r.st, ops, i + 1, Append(acc, r.out))
Moves(src, ops) == Run(Born(src), ops, 1, <<>>)
=============================================================================
