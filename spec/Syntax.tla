------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The Puppet language as an executable specification: which texts are     *)
(* programs, what syntax tree each of them denotes, where each node is     *)
(* positioned, and which error is reported, and where, for every text that *)
(* is not a program.                                                       *)
(*                                                                         *)
(* A reader is a record; lexing and parsing are functions from reader to   *)
(* reader (and tree).  Fields:                                             *)
(*   src   the source text            B    byte offset of each character   *)
(*   p     index of the next character to read                             *)
(*   cur   current token              val  its value                       *)
(*   ts    index of its first character                                    *)
(*   nls   where to continue at the next end of line (pending heredoc), 0  *)
(*   bol   first character of the current line                             *)
(*   rdx   radix of the last whole number                                  *)
(*   names enclosing named scopes      defs definitions found so far       *)
(*   md    mode: epp, hex, bt (backtick strings), tasks, wf, ast           *)
(*         ast = FALSE is the plain lexer, which knows no interpolation    *)
(*   err   [c, b, a]: code, byte offset and arguments of the first error   *)
(* Once an error has been found cur is "ERR" and nothing changes anymore.  *)
(***************************************************************************)
EXTENDS Chars

NoErr == [c |-> "", b |-> 0, a |-> <<>>]

NewReader(src, md) ==
  [src |-> src, B |-> ByteOffsets(src), p |-> 1, cur |-> "EOF", val |-> "", ts |-> 1, nls |-> 0, bol |-> 1,
   rdx |-> 10, names |-> <<>>, defs |-> <<>>, md |-> md, err |-> NoErr]

FailB(s, code, byteOffset, args) ==
  IF s.cur = "ERR" THEN s
  ELSE [s EXCEPT !.err = [c |-> code, b |-> byteOffset, a |-> args], !.cur = "ERR", !.val = ""]
Fail(s, code, i, args) == IF s.cur = "ERR" THEN s ELSE FailB(s, code, s.B[i], args)

BadCode(c) == IF c = NUL THEN "NUL" ELSE "UNICODE"
Tok(s, p, cur, val) == [s EXCEPT !.p = p, !.cur = cur, !.val = val]
\* a token that is recognised by looking at the character that follows it
TokP(s, p, cur, val) ==
  IF At(s.src, p) < 0 THEN Fail(s, BadCode(s.src[p]), p, <<>>) ELSE [s EXCEPT !.p = p, !.cur = cur, !.val = val]

Keywords == {"and", "application", "attr", "case", "class", "consumes", "default", "define", "function", "if", "in",
             "inherits", "else", "elsif", "node", "or", "plan", "private", "produces", "site", "type", "undef", "unless"}

\* How a token is named in messages. Some tokens differ only in the context they appear in
TokName(t) ==
  CASE t = "ws(" -> "(" [] t = "list[" -> "[" [] t = "sel{" -> "{" [] t = "|end" -> "|" [] OTHER -> t

\* Tokens after which a slash is a division
OperandEnd == {")", "]", "type name", "identifier", "boolean literal", "integer literal", "float literal",
               "string literal", "heredoc", "dq string literal", "regexp", "variable"}

(******************************** whitespace *******************************)
RECURSIVE SkipW(_, _, _, _, _, _, _)
\* Skip whitespace and comments from index i. cm is 0, 35 in a # comment, 42 in a /* comment. brk: stop at newline
SkipW(src, i, nls, bol, brk, cm, cp) ==
  IF i > Len(src)
  THEN IF cm = 42 THEN [c |-> 0, st |-> i, p |-> i, nls |-> nls, bol |-> bol, e |-> "LEX_UNTERMINATED_COMMENT", ep |-> cp]
       ELSE [c |-> 0, st |-> i, p |-> i, nls |-> nls, bol |-> bol, e |-> "", ep |-> 0]
  ELSE LET c == src[i]
           Ret == [c |-> c, st |-> i, p |-> i + 1, nls |-> nls, bol |-> bol, e |-> "", ep |-> 0]
       IN
    IF c < 0 THEN [Ret EXCEPT !.e = BadCode(c), !.ep = i]
    ELSE IF cm = 35 /\ c # 10 THEN SkipW(src, First(src, i + 1, LAMBDA x : x = 10 \/ x < 0), nls, bol, brk, cm, cp)
    ELSE IF cm = 42 /\ c # 42 THEN SkipW(src, First(src, i + 1, LAMBDA x : x = 42 \/ x < 0), nls, bol, brk, cm, cp)
    ELSE IF c = 32 \/ c = 13 \/ c = 9 THEN SkipW(src, First(src, i + 1, LAMBDA x : x \notin {9, 13, 32}), nls, bol, brk, cm, cp)
    ELSE IF c = 10
    THEN IF brk THEN [Ret EXCEPT !.p = i]
         ELSE LET n == IF nls > 0 THEN nls ELSE First(src, i + 1, LAMBDA x : x # 10)
              IN SkipW(src, n, 0, n, brk, 0, cp)
    ELSE IF c = 35 THEN SkipW(src, i + 1, nls, bol, brk, 35, i)
    ELSE IF c = 47
    THEN IF At(src, i + 1) = 42 THEN SkipW(src, i + 2, nls, bol, brk, 42, i)
         ELSE IF At(src, i + 1) < 0 THEN [Ret EXCEPT !.e = BadCode(src[i + 1]), !.ep = i + 1]
         ELSE Ret
    ELSE IF cm = 42
    THEN IF At(src, i + 1) = 47 THEN SkipW(src, i + 2, nls, bol, brk, 0, cp) ELSE SkipW(src, i + 1, nls, bol, brk, cm, cp)
    ELSE Ret

\* Skip spaces and tabs within a literal
SkipLit(src, i) ==
  LET j == First(src, i, LAMBDA x : x \notin {9, 13, 32})
  IN IF j > Len(src) THEN [c |-> 0, st |-> j, p |-> j] ELSE [c |-> src[j], st |-> j, p |-> j + 1]

(********************************** names **********************************)
RECURSIVE NameEnd(_, _, _, _, _)
\* i: next index, kind: token, us: last segment starts with an underscore, dash: has a dash.
\* Returns [j, dash, e, ep]
NameEnd(src, i, kind, us, dash) ==
  LET j == ScanWord(src, i)
      c == At(src, j)
      k == ScanDashes(src, j)
      Ok == [j |-> j, dash |-> dash, e |-> "", ep |-> 0]
      Invalid == [j |-> j, dash |-> dash, e |-> "NAME", ep |-> 0]
      c2 == At(src, j + 1)
      c3 == At(src, j + 2)
  IN
  IF c < 0 THEN [Ok EXCEPT !.e = BadCode(c), !.ep = j]
  ELSE IF c = 45 /\ kind = "identifier"
  THEN IF At(src, k) < 0 THEN [Ok EXCEPT !.e = BadCode(src[k]), !.ep = j]
       ELSE IF IsWord(At(src, k)) THEN NameEnd(src, k + 1, kind, us, TRUE)
       ELSE Ok
  ELSE IF c # 58 THEN Ok
  ELSE IF c2 < 0 THEN [Ok EXCEPT !.e = BadCode(c2), !.ep = j + 1]
  ELSE IF c2 # 58 THEN Ok
  ELSE IF c3 < 0 THEN [Ok EXCEPT !.e = BadCode(c3), !.ep = j + 2]
  ELSE IF ~us /\ (IF kind = "type name" THEN IsUpper(c3) ELSE IsLower(c3) \/ (kind = "variable" /\ c3 = 95))
       THEN NameEnd(src, j + 3, kind, c3 = 95, dash)
       ELSE Invalid

LexName(s, st, i, kind) ==
  LET r == NameEnd(s.src, i, kind, FALSE, FALSE)
      word == Str(s.src, IF kind = "variable" THEN st + 1 ELSE st, r.j)
  IN
  IF r.e = "NAME"
  THEN Fail(s, CASE kind = "type name" -> "LEX_INVALID_TYPE_NAME"
                 [] kind = "variable" -> "LEX_INVALID_VARIABLE_NAME"
                 [] OTHER -> "LEX_INVALID_NAME", st, <<>>)
  ELSE IF r.e # "" THEN Fail(s, r.e, r.ep, <<>>)
  ELSE IF kind = "variable" THEN Tok(s, r.j, kind, <<"s", word>>)
  ELSE IF kind = "type name" THEN Tok(s, r.j, kind, word)
  ELSE IF r.dash THEN Tok(s, r.j, "string literal", From(s.src, st, r.j))
  ELSE IF word = "true" \/ word = "false" THEN Tok(s, r.j, "boolean literal", word)
  ELSE IF word \in Keywords /\ (word # "plan" \/ s.md.tasks) THEN Tok(s, r.j, word, word)
  ELSE Tok(s, r.j, kind, word)

(********************************* numbers *********************************)
OutOfRange(s, st, j) == Fail(s, "LEX_NUMBER_OUT_OF_RANGE", st, <<<<"number", Str(s.src, st, j)>>>>)

LexFloat(s, st, d, i) ==
  LET src == s.src
      i1 == IF d = 46 THEN i ELSE SkipSign(src, i)
      j == ScanDigits(src, i1)
      hasE == d = 46 /\ At(src, j) \in {69, 101}
      k == SkipSign(src, j + 1)
      j2 == IF hasE THEN ScanDigits(src, k) ELSE j
      f == FloatOf(src, st, j2)
  IN
  IF At(src, i1) < 0 THEN Fail(s, BadCode(src[i1]), i1, <<>>)
  ELSE IF j = i1 THEN Fail(s, "LEX_DIGIT_EXPECTED", i1, <<>>)
  ELSE IF hasE /\ At(src, k) < 0 THEN Fail(s, BadCode(src[k]), k, <<>>)
  ELSE IF hasE /\ j2 = k THEN Fail(s, "LEX_DIGIT_EXPECTED", k, <<>>)
  ELSE IF At(src, j2) < 0 THEN Fail(s, BadCode(src[j2]), j2, <<>>)
  ELSE IF IsUniLetter(At(src, j2)) THEN Fail(s, "LEX_DIGIT_EXPECTED", j2, <<>>)
  ELSE IF ~f.ok THEN OutOfRange(s, st, j2)
  ELSE Tok(s, j2, "float literal", f.v)

LexDecimal(s, st) ==
  LET src == s.src
      j == ScanDigits(src, st)
      c == At(src, j)
      n == IntOf(src, st, j, 10)
  IN
  IF c < 0 THEN Fail(s, BadCode(c), j, <<>>)
  ELSE IF c \in {46, 69, 101} THEN LexFloat(s, st, c, j + 1)
  ELSE IF IsUniLetter(c) THEN Fail(s, "LEX_DIGIT_EXPECTED", j, <<>>)
  ELSE IF ~n.ok THEN OutOfRange(s, st, j)
  ELSE [s EXCEPT !.p = j, !.cur = "integer literal", !.val = n.v, !.rdx = 10]

LexZero(s0, st) ==
  LET s == [s0 EXCEPT !.rdx = 10]
      src == s.src
      c == At(src, st + 1)
      hj == ScanHex(src, st + 2)
      oj == ScanOctal(src, st + 1)
      hv == IntOf(src, st + 2, hj, 16)
      ov == IntOf(src, st + 1, oj, 8)
  IN
  IF c < 0 THEN Fail(s, BadCode(c), st + 1, <<>>)
  ELSE IF c \in {120, 88}
  THEN IF At(src, hj) < 0 THEN Fail(s, BadCode(src[hj]), hj, <<>>)
       ELSE IF hj = st + 2 \/ IsLetter(At(src, hj)) THEN Fail(s, "LEX_HEXDIGIT_EXPECTED", hj, <<>>)
       ELSE IF ~hv.ok THEN OutOfRange(s, st, hj)
       ELSE [s EXCEPT !.p = hj, !.cur = "integer literal", !.val = hv.v, !.rdx = 16]
  ELSE IF c \in {46, 69, 101} THEN LexFloat(s, st, c, st + 2)
  ELSE IF At(src, oj) < 0 THEN Fail(s, BadCode(src[oj]), oj, <<>>)
  ELSE IF IsDigit(At(src, oj)) \/ IsUniLetter(At(src, oj)) THEN Fail(s, "LEX_OCTALDIGIT_EXPECTED", oj, <<>>)
  ELSE IF oj > st + 1
  THEN IF ~ov.ok THEN OutOfRange(s, st, oj)
       ELSE [s EXCEPT !.p = oj, !.cur = "integer literal", !.val = ov.v, !.rdx = 8]
  ELSE Tok(s, st + 1, "integer literal", "0")

(******************************** variables ********************************)
LexVariable(s, st) ==
  LET src == s.src
      c1 == At(src, st + 1)
      colon == c1 = 58
      i == IF colon THEN st + 3 ELSE st + 1
      c == At(src, i)
      j == ScanDigits(src, i)
      \* the number starts right after the dollar sign
      n == IntOf(src, st + 1, j, 10)
  IN
  IF c1 < 0 THEN Fail(s, BadCode(c1), st + 1, <<>>)
  ELSE IF colon /\ At(src, st + 2) < 0 THEN Fail(s, BadCode(src[st + 2]), st + 2, <<>>)
  ELSE IF colon /\ At(src, st + 2) # 58 THEN Fail(s, "LEX_INVALID_VARIABLE_NAME", st, <<>>)
  ELSE IF c < 0 THEN Fail(s, BadCode(c), i, <<>>)
  ELSE IF IsLower(c) THEN LexName(s, st, i + 1, "variable")
  ELSE IF IsDigit(c)
  THEN IF colon \/ ~n.ok THEN OutOfRange(s, st, j)
       ELSE IF At(src, j) < 0 THEN Fail(s, BadCode(src[j]), j, <<>>)
       ELSE Tok(s, j, "variable", <<"i", n.v>>)
  ELSE IF IsUniLetter(c) THEN Fail(s, "LEX_INVALID_VARIABLE_NAME", i, <<>>)
  ELSE Tok(s, i, "variable", <<"s", "">>)

(***************************** simple strings ******************************)
Unterminated(s, q, kind) == Fail(s, "LEX_UNTERMINATED_STRING", q, <<<<"string_type", kind>>>>)

RECURSIVE LexSingle(_, _, _, _)
LexSingle(s, i, buf, q) ==
  LET c == At(s.src, i)
      c2 == At(s.src, i + 1)
  IN
  IF c = 0 THEN Unterminated(s, q, "single")
  ELSE IF c < 0 THEN Fail(s, BadCode(c), i, <<>>)
  ELSE IF c = 39 THEN Tok(s, i + 1, "string literal", buf)
  ELSE IF c = 92
  THEN IF c2 = 0 THEN Unterminated(s, q, "single")
       ELSE IF c2 < 0 THEN Fail(s, BadCode(c2), i + 1, <<>>)
       ELSE IF c2 = 39 \/ c2 = 92 THEN LexSingle(s, i + 2, Append(buf, c2), q)
       ELSE LexSingle(s, i + 2, buf \o <<92, c2>>, q)
  ELSE LET k == First(s.src, i + 1, LAMBDA x : x = 39 \/ x = 92 \/ x < 0) IN LexSingle(s, k, buf \o From(s.src, i, k), q)

LexBacktick(s, i0, q) ==
  LET i == First(s.src, i0, LAMBDA x : x = 96 \/ x < 0)
      c == At(s.src, i)
  IN
  IF c = 0 THEN Unterminated(s, q, "backtick")
  ELSE IF c < 0 THEN Fail(s, BadCode(c), i, <<>>)
  ELSE Tok(s, i + 1, "string literal", From(s.src, q + 1, i))

RECURSIVE LexRegexp(_, _, _, _)
\* A slash that starts no regular expression is a division
LexRegexp(s, i, buf, q) ==
  LET c == At(s.src, i)
      c2 == At(s.src, i + 1)
  IN
  IF c = 0 THEN Tok(s, q + 1, "/", "/")
  ELSE IF c < 0 THEN Fail(s, BadCode(c), i, <<>>)
  ELSE IF c = 47 THEN Tok(s, i + 1, "regexp", buf)
  ELSE IF c = 92
  THEN IF c2 = 0 THEN Unterminated(s, q, "backtick")
       ELSE IF c2 < 0 THEN Fail(s, BadCode(c2), i + 1, <<>>)
       ELSE IF c2 = 47 THEN LexRegexp(s, i + 2, Append(buf, 47), q)
       ELSE LexRegexp(s, i + 2, buf \o <<92, c2>>, q)
  ELSE LET k == First(s.src, i + 1, LAMBDA x : x = 47 \/ x = 92 \/ x < 0) IN LexRegexp(s, k, buf \o From(s.src, i, k), q)

\* Unicode escape whose first character after \u is at i: [ok, j, v, b], b > 0 is a position that cannot be read
UnicodeEscape(src, i) ==
  LET j == ScanHex(src, i)
      k == ScanHex(src, i + 1)
      Bad(b) == [ok |-> FALSE, j |-> i, v |-> 0, b |-> b]
  IN
  IF At(src, i) < 0 THEN Bad(i)
  ELSE IF IsHex(At(src, i))
  THEN IF j < i + 4 THEN IF At(src, j) < 0 THEN Bad(j) ELSE Bad(0)
       ELSE [ok |-> TRUE, j |-> i + 4, v |-> Rune(HexNum(src, i, i + 4, 0)), b |-> 0]
  ELSE IF At(src, i) # 123 THEN Bad(0)
  ELSE IF At(src, k) < 0 THEN Bad(k)
  ELSE IF k - i - 1 >= 2 /\ k - i - 1 <= 6 /\ At(src, k) = 125
  THEN [ok |-> TRUE, j |-> k + 1, v |-> Rune(HexNum(src, i + 1, k, 0)), b |-> 0]
  ELSE Bad(0)

HexEscape(src, i) ==
  IF At(src, i) < 0 THEN [ok |-> FALSE, j |-> i, v |-> 0, b |-> i]
  ELSE IF IsHex(At(src, i)) /\ At(src, i + 1) < 0 THEN [ok |-> FALSE, j |-> i, v |-> 0, b |-> i + 1]
  ELSE IF IsHex(At(src, i)) /\ IsHex(At(src, i + 1))
  THEN [ok |-> TRUE, j |-> i + 2, v |-> EncodeByte(HexNum(src, i, i + 2, 0)), b |-> 0]
  ELSE [ok |-> FALSE, j |-> i, v |-> 0, b |-> 0]

EscapeFail(s, esc, code, i) == IF esc.b > 0 THEN Fail(s, BadCode(s.src[esc.b]), esc.b, <<>>) ELSE Fail(s, code, i, <<>>)

(********************************* heredoc *********************************)
EndQuote(src, i) == First(src, i, LAMBDA x : x = 10 \/ x = 34 \/ x < 0)

FlagCodes == {116, 114, 110, 115, 117, 36}  \* t r n s u $   (L, the seventh, is a newline)

RECURSIVE HereFlags(_, _, _, _)
\* [ok, f, bad]
HereFlags(src, i, j, acc) ==
  IF i >= j THEN [ok |-> TRUE, f |-> acc, bad |-> 0]
  ELSE IF src[i] \in FlagCodes THEN HereFlags(src, i + 1, j, acc \cup {src[i]})
  ELSE IF src[i] = 76 THEN HereFlags(src, i + 1, j, acc \cup {10})
  ELSE [ok |-> FALSE, f |-> acc, bad |-> Utf8(src[i])[1]]

RECURSIVE HereTag(_, _, _)
\* Parse what is between @( and ). h: [i, tag, syn, sx, esc, q]; result has e # "" or is complete
HereTag(s, h, start) ==
  LET src == s.src
      c == At(src, h.i)
      Err(code, at, args) == [h EXCEPT !.e = code, !.ep = at, !.ea = args]
      tag2 == IF h.tag = <<>> THEN From(src, start, h.i) ELSE h.tag
  IN
  CASE c = 0 \/ c = 10 -> Err("LEX_HEREDOC_DECL_UNTERMINATED", start - 2, <<>>)
    [] c < 0 -> Err(BadCode(c), h.i, <<>>)
    [] c = 41 ->
         LET fl == IF h.esc > 0 THEN HereFlags(src, h.esc, h.i, {}) ELSE [ok |-> TRUE, f |-> {}, bad |-> 0]
             syn == IF h.syn > 0 THEN From(src, h.syn, h.i) ELSE h.sx
         IN IF ~fl.ok THEN Err("LEX_HEREDOC_ILLEGAL_ESCAPE", h.esc, <<<<"flag", TextArg(<<fl.bad>>)>>>>)
            ELSE IF tag2 = <<>> THEN Err("LEX_HEREDOC_EMPTY_TAG", start - 2, <<>>)
            ELSE [h EXCEPT !.i = h.i + 1, !.tag = tag2, !.sx = syn, !.fl = fl.f]
    [] c = 58 ->
         IF h.syn > 0 THEN Err("LEX_HEREDOC_MULTIPLE_SYNTAX", h.i, <<>>)
         ELSE HereTag(s, [h EXCEPT !.tag = tag2, !.i = h.i + 1, !.syn = h.i + 1], start)
    [] c = 47 ->
         IF h.esc > 0 THEN Err("LEX_HEREDOC_MULTIPLE_ESCAPE", h.i, <<>>)
         ELSE IF h.tag = <<>> THEN HereTag(s, [h EXCEPT !.tag = tag2, !.i = h.i + 1, !.esc = h.i + 1], start)
         ELSE IF h.syn > 0 THEN HereTag(s, [h EXCEPT !.sx = From(src, h.syn, h.i), !.syn = 0, !.i = h.i + 1, !.esc = h.i + 1], start)
         ELSE HereTag(s, [h EXCEPT !.i = h.i + 1, !.esc = h.i + 1], start)
    [] c = 34 ->
         LET q == h.i + 1
             j == EndQuote(src, q)
         IN IF h.tag # <<>> THEN Err("LEX_HEREDOC_MULTIPLE_TAG", h.i, <<>>)
            ELSE IF At(src, j) < 0 THEN Err(BadCode(src[j]), j, <<>>)
            ELSE IF At(src, j) # 34 THEN Err("LEX_HEREDOC_DECL_UNTERMINATED", start - 2, <<>>)
            ELSE IF j = q THEN Err("LEX_HEREDOC_EMPTY_TAG", start - 2, <<>>)
            ELSE HereTag(s, [h EXCEPT !.tag = From(src, q, j), !.q = q, !.i = j + 1], start)
    [] OTHER -> HereTag(s, [h EXCEPT !.i = h.i + 1], start)

RECURSIVE HereBody(_, _, _, _)
\* Where the text starts: after the end of the line that has the tag. [i, nls, e, ep]
HereBody(src, i, nls, bol) ==
  LET c == At(src, i)
      w == SkipW(src, i, nls, bol, TRUE, 0, 0)
  IN
  IF c = 0 THEN [i |-> i, e |-> "LEX_HEREDOC_UNTERMINATED", ep |-> 0]
  ELSE IF c < 0 THEN [i |-> i, e |-> BadCode(c), ep |-> i]
  ELSE IF c = 10 THEN [i |-> IF nls > 0 THEN nls ELSE i + 1, e |-> "", ep |-> 0]
  ELSE IF c = 35 \/ (c = 47 /\ At(src, i + 1) = 42)
  THEN IF w.e # "" THEN [i |-> i, e |-> w.e, ep |-> w.ep] ELSE HereBody(src, w.st, nls, bol)
  ELSE HereBody(src, i + 1, nls, bol)

\* c is the last character read, i the index of the next one
RECURSIVE HereEnd(_, _, _, _, _)
\* [e, ep, end, next, ind]
HereEnd(src, c, i, cstart, tag) ==
  IF c = 0 THEN [e |-> "LEX_HEREDOC_UNTERMINATED", ep |-> 0, end |-> 0, next |-> 0, ind |-> 0]
  ELSE IF c < 0 THEN [e |-> BadCode(c), ep |-> i - 1, end |-> 0, next |-> 0, ind |-> 0]
  ELSE IF c # 10
  THEN LET k == First(src, i, LAMBDA x : x = 10 \/ x < 0) IN HereEnd(src, At(src, k), IF k > Len(src) THEN k ELSE k + 1, cstart, tag)
  ELSE LET w0 == SkipLit(src, i)
           bar == w0.c = 124
           ind == IF bar THEN w0.st - i ELSE 0
           w1 == IF bar THEN SkipLit(src, w0.p) ELSE w0
           sup == w1.c = 45
           w2 == IF sup THEN SkipLit(src, w1.p) ELSE w1
           te == w2.st + Len(tag)
           w3 == SkipLit(src, te)
       IN IF w2.c # tag[1] THEN HereEnd(src, w2.c, w2.p, cstart, tag)
          ELSE IF te <= Len(src) + 1 /\ SubSeq(src, w2.st, te - 1) = tag
          THEN IF w3.c = 10 \/ w3.c = 0
               THEN LET e1 == IF sup /\ i > cstart THEN i - 1 ELSE i
                        e2 == IF sup /\ i > cstart /\ e1 > cstart /\ src[e1 - 1] = 13 THEN e1 - 1 ELSE e1
                    IN [e |-> "", ep |-> 0, end |-> e2, next |-> w3.p, ind |-> ind]
               ELSE HereEnd(src, w3.c, w3.p, cstart, tag)
          ELSE HereEnd(src, w2.c, w2.p, cstart, tag)

RECURSIVE Blanks(_, _, _)
Blanks(src, i, n) == IF n = 0 THEN TRUE ELSE At(src, i) \in {9, 32} /\ Blanks(src, i + 1, n - 1)
\* A line that does not have all of the margin keeps its indentation
StripIndent(src, i, n) == IF Blanks(src, i, n) THEN i + n ELSE i

(********************************** EPP ************************************)
RECURSIVE EppComment(_, _, _)
\* index after the %> that ends the comment, 0 if there is none, -index of a bad character
EppComment(src, i, prev) ==
  LET c == At(src, i)
      n == At(src, i + 1)
  IN IF c = 0 THEN 0
     ELSE IF c < 0 THEN -i
     ELSE IF c = 37 THEN IF n < 0 THEN -(i + 1)
                         ELSE IF n = 62 /\ prev # 37 THEN i + 2
                         ELSE EppComment(src, i + 1, n)
     ELSE LET k == First(src, i + 1, LAMBDA x : x = 37 \/ x < 0) IN EppComment(src, k, At(src, k - 1))

RECURSIVE EppText(_, _, _, _)
\* Text up to the next tag: [j, buf, e, ep, eof]
EppText(src, i, buf, keep) ==
  LET c == At(src, i)
      n == At(src, i + 1)
      n2 == At(src, i + 2)
      Bad(at) == [j |-> i, buf |-> buf, e |-> BadCode(src[at]), ep |-> at, eof |-> FALSE]
  IN
  IF c = 0 THEN [j |-> i, buf |-> buf, e |-> "", ep |-> 0, eof |-> TRUE]
  ELSE IF c < 0 THEN Bad(i)
  ELSE IF c = 60
  THEN IF n < 0 THEN Bad(i + 1)
       ELSE IF n # 37 THEN EppText(src, i + 1, Append(buf, 60), Len(buf) + 1)
       ELSE IF n2 < 0 THEN Bad(i + 2)
       ELSE IF n2 = 37 THEN EppText(src, i + 3, buf \o <<60, 37>>, Len(buf) + 2)
       ELSE IF n2 = 35
       THEN LET j == EppComment(src, i + 3, 35)
            IN IF j = 0 THEN [j |-> i, buf |-> buf, e |-> "LEX_UNBALANCED_EPP_COMMENT", ep |-> i, eof |-> FALSE]
               ELSE IF j < 0 THEN Bad(-j)
               ELSE EppText(src, j, buf, keep)
       ELSE IF n2 = 45 THEN [j |-> i, buf |-> SubSeq(buf, 1, keep), e |-> "", ep |-> 0, eof |-> FALSE]
       ELSE [j |-> i, buf |-> buf, e |-> "", ep |-> 0, eof |-> FALSE]
  ELSE IF c = 32 \/ c = 9 THEN EppText(src, i + 1, Append(buf, c), keep)
  ELSE IF c = 37
  THEN IF n < 0 THEN Bad(i + 1)
       ELSE IF n # 37 THEN EppText(src, i + 1, Append(buf, 37), Len(buf) + 1)
       ELSE IF n2 < 0 THEN Bad(i + 2)
       ELSE IF n2 = 62 THEN EppText(src, i + 3, buf \o <<37, 62>>, Len(buf) + 2)
       ELSE EppText(src, i + 2, buf \o <<37, 37>>, Len(buf) + 2)
  ELSE LET k == First(src, i + 1, LAMBDA x : x \in {9, 32, 37, 60} \/ x < 0) IN EppText(src, k, buf \o From(src, i, k), Len(buf) + k - i)

SkipBlanks(src, i) == First(src, i, LAMBDA x : x # 9 /\ x # 32)

(****************************** syntax trees *******************************)
(* A node has a kind, a byte offset, a byte length, attributes and a tuple *)
(* of slots, each slot a tuple of nodes.  The slots are in source order of *)
(* traversal.                                                              *)
(***************************************************************************)
N(k, o, n, v, c) == [k |-> k, o |-> o, n |-> n, v |-> v, c |-> c]
BadNode == N("Bad", 0, 0, <<>>, <<>>)
R(s, v) == [s |-> s, v |-> v]
BP(s) == s.B[s.p]         \* byte offset of the reader
TS(s) == s.B[s.ts]        \* byte offset of the current token
EndOf(e) == e.o + e.n

QN(name, o, n) == N("QualifiedName", o, n, <<name>>, <<>>)
QR(name, o, n) == N("QualifiedReference", o, n, <<name>>, <<>>)
StrNode(codes, o, n) == N("LiteralString", o, n, <<Normal(codes)>>, <<>>)
IntNode(v, rdx, o, n) == N("LiteralInteger", o, n, <<v, ToString(rdx)>>, <<>>)
VarNode(name, o, n) == N("VariableExpression", o, n, <<>>, <<<<name>>>>)
Access(op, keys, o, n) == N("AccessExpression", o, n, <<>>, <<<<op>>, keys>>)
NamedAccess(l, r, o, n) == N("NamedAccessExpression", o, n, <<>>, <<<<l>>, <<r>>>>)
CallMethod(f, args, lam, o, n) == N("CallMethodExpression", o, n, <<TRUE>>, <<<<f>>, args, lam>>)
CallNamed(f, rval, args, lam, o, n) == N("CallNamedFunctionExpression", o, n, <<rval>>, <<<<f>>, args, lam>>)
Block(es, o, n) == N("BlockExpression", o, n, <<>>, <<es>>)
HashNode(es, o, n) == N("LiteralHash", o, n, <<>>, <<es>>)
ArrayNode(es, o, n) == N("LiteralList", o, n, <<>>, <<es>>)
KeyedEntry(k, v, o, n) == N("KeyedEntry", o, n, <<>>, <<<<k>>, <<v>>>>)
TextNode(e, o, n) == N("TextExpression", o, n, <<>>, <<<<e>>>>)
Op1(e, i) == e.c[i][1]    \* the single node in slot i

(************************ the mutually recursive part **********************)
RECURSIVE NextTok(_), LexTok(_, _, _, _), LexDouble(_, _, _, _, _), HandleInterp(_, _, _, _), Interpolate(_, _),
          HereApply(_, _, _, _, _, _, _, _), LexHeredoc(_), EppNext(_, _),
          ParseUntil(_, _, _), Statements(_, _, _), SynStmt(_), StmtList(_, _),
          Exprs(_, _, _, _), Produce(_, _), Argument(_), HandleKeyword(_), Relationship(_), RelLoop(_, _),
          Assignment(_), AssignLoop(_, _), Step(_), ResourceX(_), Expr(_), SelectX(_), SelectLoop(_, _),
          Binary(_, _), BinLoop(_, _, _), Unary(_), Primary(_), PrimaryLoop(_, _), Atom(_),
          IfX(_, _), SelectorEntry(_), CaseX(_), CaseOptions(_, _), ResourceExpr(_, _, _, _), ResourceBodies(_, _, _),
          AttrOps(_, _), AttrOp(_), Collect(_, _), TypeAliasOrDef(_, _), CallX(_, _), ArrayItems(_), KeyedEntryX(_),
          StepProperty(_), StateAttribute(_), StepExpression(_), Activities(_, _), StepDecl(_, _, _, _, _),
          Lambda(_), ParamList(_), LambdaParams(_), Parameter(_), ReturnParams(_), ReturnParameter(_), ParameterType(_),
          FunctionDef(_, _), NodeDef(_), Hostnames(_, _), Hostname(_), DottedName(_, _, _), ClassX(_, _), Capability(_, _, _),
          SiteDef(_), ResourceDef(_, _)

(***************************** double quotes *******************************)
\* i: index of the next character; buf: text since the last interpolation; q: index of the opening quote
LexDouble(s, i, buf, segs, q) ==
  LET src == s.src
      c == At(src, i)
      c2 == At(src, i + 1)
  IN
  IF s.cur = "ERR" THEN s
  ELSE IF c = 0 THEN Unterminated(s, q, "double")
  ELSE IF c < 0 THEN Fail(s, BadCode(c), i, <<>>)
  ELSE IF c = 34
  THEN LET text == Normal(buf)
           tail == N("LiteralString", TS(s), s.B[i + 1] - TS(s), <<text>>, <<>>)
           parts == IF segs # <<>> /\ buf = <<>> THEN segs ELSE Append(segs, tail)
           o == s.B[q]
       IN IF segs = <<>> THEN [s EXCEPT !.p = i + 1, !.cur = "string literal", !.val = text, !.ts = q]
          ELSE [s EXCEPT !.p = i + 1, !.cur = "dq string literal", !.ts = q,
                         !.val = N("ConcatenatedString", o, s.B[i + 1] - o, <<>>, <<parts>>)]
  ELSE IF c = 92
  THEN IF c2 = 0 THEN Unterminated(s, q, "double")
       ELSE IF c2 < 0 THEN Fail(s, BadCode(c2), i + 1, <<>>)
       ELSE CASE c2 = 34 \/ c2 = 92 \/ c2 = 39 -> LexDouble(s, i + 2, Append(buf, c2), segs, q)
              [] c2 = 36 -> LexDouble(s, i + 2, IF s.md.ast THEN Append(buf, 36) ELSE buf \o <<92, 36>>, segs, q)
              [] c2 = 110 -> LexDouble(s, i + 2, Append(buf, 10), segs, q)
              [] c2 = 114 -> LexDouble(s, i + 2, Append(buf, 13), segs, q)
              [] c2 = 116 -> LexDouble(s, i + 2, Append(buf, 9), segs, q)
              [] c2 = 115 -> LexDouble(s, i + 2, Append(buf, 32), segs, q)
              [] c2 = 117 -> LET u == UnicodeEscape(src, i + 2)
                             IN IF u.ok THEN LexDouble(s, u.j, Append(buf, u.v), segs, q)
                                ELSE EscapeFail(s, u, "LEX_MALFORMED_UNICODE_ESCAPE", i)
              [] c2 = 120 /\ s.md.hex -> LET u == HexEscape(src, i + 2)
                                         IN IF u.ok THEN LexDouble(s, u.j, Append(buf, u.v), segs, q)
                                            ELSE EscapeFail(s, u, "LEX_MALFORMED_HEX_ESCAPE", i)
              [] OTHER -> LexDouble(s, i + 2, buf \o <<92, c2>>, segs, q)
  ELSE IF c = 36 /\ s.md.ast
  THEN LET r == HandleInterp([s EXCEPT !.p = i + 1], i, segs, buf)
       IN LexDouble(r.s, r.s.p, <<>>, r.v, q)
  ELSE LET k == First(src, i + 1, LAMBDA x : x \in {34, 36, 92} \/ x < 0) IN LexDouble(s, k, buf \o From(src, i, k), segs, q)

\* A dollar sign at index i has been read
HandleInterp(s, i, segs, buf) ==
  LET segs1 == IF buf = <<>> THEN segs ELSE Append(segs, StrNode(buf, TS(s), BP(s) - TS(s)))
      r == Interpolate(s, i)
  IN R([r.s EXCEPT !.ts = r.s.p], Append(segs1, r.v))

RECURSIVE ConvLhs(_, _)
\* The leftmost name of an interpolated expression denotes a variable. o: offset of the dollar sign
ConvLhs(e, o) ==
  LET l == Op1(e, 1)
      r == Op1(e, 2)
  IN
  CASE l.k = "QualifiedName" -> NamedAccess(VarNode(l, o, EndOf(l) - o), r, o, EndOf(e) - o)
    [] l.k = "AccessExpression" ->
         LET q == Op1(l, 1)
             l2 == IF q.k = "QualifiedName" THEN Access(VarNode(q, o, EndOf(q) - o), l.c[2], o, EndOf(l) - o) ELSE l
         IN NamedAccess(l2, r, o, EndOf(e) - o)
    [] l.k = "NamedAccessExpression" -> NamedAccess(ConvLhs(l, o), r, o, EndOf(e) - o)
    [] l.k = "CallMethodExpression" ->
         NamedAccess(CallMethod(ConvLhs(Op1(l, 1), o), l.c[2], l.c[3], o, EndOf(l) - o), r, o, EndOf(e) - o)
    [] OTHER -> e

\* Start at index st of the dollar sign; the reader is just after it
Interpolate(s, st) ==
  LET src == s.src
      c == At(src, st + 1)
      o == s.B[st]
      r == ParseUntil(NextTok([s EXCEPT !.p = st + 2]), "}", TRUE)
      e == r.v
      len == BP(r.s) - o
      conv ==
        CASE e.k = "QualifiedName" -> VarNode(e, o, len)
          [] e.k = "AccessExpression" ->
               IF Op1(e, 1).k = "QualifiedName"
               THEN Access(VarNode(Op1(e, 1), o, EndOf(Op1(e, 1)) - o), e.c[2], o, EndOf(e) - o) ELSE e
          [] e.k = "CallMethodExpression" ->
               IF Op1(e, 1).k = "NamedAccessExpression"
                  /\ Op1(Op1(e, 1), 1).k \in {"QualifiedName", "AccessExpression", "NamedAccessExpression", "CallMethodExpression"}
               THEN CallMethod(ConvLhs(Op1(e, 1), o), e.c[2], e.c[3], o, EndOf(e) - o) ELSE e
          [] OTHER -> e
      t == NextTok([s EXCEPT !.p = st])
      vo == s.B[st + 1]
      vlen == BP(t) - vo
      name == IF t.val[1] = "s" THEN QN(t.val[2], vo, vlen) ELSE IntNode(t.val[2], 10, vo, vlen)
  IN
  IF c < 0 THEN R(Fail(s, BadCode(c), st + 1, <<>>), BadNode)
  ELSE IF c = 123
  THEN IF r.s.cur = "ERR" THEN R(r.s, BadNode) ELSE R(r.s, TextNode(conv, o, len))
  ELSE IF ~(c = 58 \/ IsLower(c) \/ IsDigit(c)) THEN R(Fail(s, "LEX_MALFORMED_INTERPOLATION", st, <<>>), BadNode)
  ELSE IF t.cur = "ERR" THEN R(t, BadNode)
  ELSE R(t, TextNode(VarNode(name, o, BP(t) - o), o, BP(t) - o))

(********************************* heredoc *********************************)
\* Apply escapes and interpolation to the text from i up to e. Result: [s |-> reader, v |-> <<segments, tail text>>]
HereApply(s, i, e, ind, fl, interp, buf, segs) ==
  LET src == s.src
      c == At(src, i)
      j == i + 1
      c2 == At(src, j)
      Done(b, p) == R([s EXCEPT !.p = p], <<segs, Normal(b)>>)
      Plain(ch, b, p) == IF ch = 10 THEN HereApply(s, StripIndent(src, p, ind), e, ind, fl, interp, Append(b, ch), segs)
                         ELSE HereApply(s, p, e, ind, fl, interp, Append(b, ch), segs)
      Interp(at, b) == LET r == HandleInterp([s EXCEPT !.p = at + 1], at, segs, b)
                       IN HereApply(r.s, r.s.p, e, ind, fl, interp, <<>>, r.v)
  IN
  IF s.cur = "ERR" THEN R(s, <<segs, buf>>)
  ELSE IF c < 0 THEN R(Fail(s, BadCode(c), i, <<>>), <<segs, buf>>)
  ELSE IF c = 0 THEN Done(buf, i)
  ELSE IF i >= e THEN Done(buf, i + 1)
  ELSE IF c # 92 /\ c # 36 /\ c # 10
  THEN LET n == First(src, j, LAMBDA x : x \in {10, 36, 92} \/ x < 0)
           k == IF n > e THEN e ELSE n
       IN HereApply(s, k, e, ind, fl, interp, buf \o From(src, i, k), segs)
  ELSE IF c # 92 THEN IF c = 36 /\ interp THEN Interp(i, buf) ELSE Plain(c, buf, j)
  ELSE IF c2 < 0 THEN R(Fail(s, BadCode(c2), j, <<>>), <<segs, buf>>)
  ELSE IF j >= e THEN Done(Append(buf, 92), IF j > Len(src) THEN j ELSE j + 1)
  ELSE IF c2 \notin fl THEN IF c2 = 36 /\ interp THEN Interp(j, Append(buf, 92)) ELSE Plain(c2, Append(buf, 92), j + 1)
  ELSE CASE c2 = 114 -> HereApply(s, j + 1, e, ind, fl, interp, Append(buf, 13), segs)
         [] c2 = 110 -> HereApply(s, j + 1, e, ind, fl, interp, Append(buf, 10), segs)
         [] c2 = 116 -> HereApply(s, j + 1, e, ind, fl, interp, Append(buf, 9), segs)
         [] c2 = 115 -> HereApply(s, j + 1, e, ind, fl, interp, Append(buf, 32), segs)
         [] c2 = 117 -> LET u == UnicodeEscape(src, j + 1)
                        IN IF u.ok THEN HereApply(s, u.j, e, ind, fl, interp, Append(buf, u.v), segs)
                           ELSE R(EscapeFail(s, u, "LEX_MALFORMED_UNICODE_ESCAPE", i), <<segs, buf>>)
         [] c2 = 10 -> HereApply(s, StripIndent(src, j + 1, ind), e, ind, fl, interp, buf, segs)
         [] OTHER -> HereApply(s, j + 1, e, ind, fl, interp, Append(buf, c2), segs)

\* The reader is just after @(
LexHeredoc(s) ==
  LET src == s.src
      start == s.p
      hs == start - 2
      h == HereTag(s, [i |-> start, tag |-> <<>>, syn |-> 0, sx |-> <<>>, esc |-> 0, q |-> 0, fl |-> {}, e |-> "", ep |-> 0, ea |-> <<>>], start)
      b == HereBody(src, h.i, s.nls, s.bol)
      cs == b.i
      f == HereEnd(src, 10, cs, cs, h.tag)
      interp == h.q > 0 /\ s.md.ast
      cooked == h.esc > 0 \/ h.q > 0 \/ f.ind > 0
      s1 == [s EXCEPT !.nls = 0]   \* a pending heredoc on this line has been passed
      s2 == IF s.nls > 0 THEN s1 ELSE s
      a == HereApply([s2 EXCEPT !.ts = cs], StripIndent(src, cs, f.ind), f.end, f.ind, h.fl, interp, <<>>, <<>>)
      segs == a.v[1]
      tail == a.v[2]
      o == s.B[hs]
      co == s.B[cs]
      clen == s.B[f.end] - co
      text == IF cooked THEN tail ELSE From(src, cs, f.end)
      body == IF cooked /\ segs # <<>>
              THEN N("ConcatenatedString", co, clen, <<>>,
                     <<IF tail = <<>> THEN segs ELSE Append(segs, N("LiteralString", TS(a.s), BP(a.s) - TS(a.s), <<tail>>, <<>>))>>)
              ELSE N("LiteralString", co, clen, <<text>>, <<>>)
      s3 == [(IF cooked THEN a.s ELSE s2) EXCEPT !.p = h.i, !.nls = f.next, !.ts = hs]
  IN
  IF h.e # "" THEN Fail(s, h.e, h.ep, h.ea)
  ELSE IF b.e # "" THEN Fail(s, b.e, IF b.ep = 0 THEN hs ELSE b.ep, <<>>)
  ELSE IF f.e # "" THEN Fail(s, f.e, IF f.ep = 0 THEN hs ELSE f.ep, <<>>)
  ELSE IF cooked /\ a.s.cur = "ERR" THEN a.s
  ELSE IF s.md.ast
  THEN [s3 EXCEPT !.cur = "heredoc", !.val = N("HeredocExpression", o, s.B[f.end] - o, <<h.sx>>, <<<<body>>>>)]
  ELSE [s3 EXCEPT !.cur = "string literal", !.val = text]

(********************************** EPP ************************************)
\* Text outside of tags, starting at index i
EppNext(s, i) ==
  LET t == EppText(s.src, i, <<>>, 0)
  IN
  IF t.e # "" THEN Fail(s, t.e, t.ep, <<>>)
  ELSE IF t.eof THEN IF t.buf = <<>> THEN Tok(s, t.j, "EOF", "") ELSE Tok(s, t.j, "epp text", t.buf)
  ELSE IF t.buf = <<>> THEN NextTok(Tok(s, t.j, "epp text", t.buf))
  ELSE Tok(s, t.j, "epp text", t.buf)

(********************************* tokens **********************************)
NextTok(s) ==
  IF s.cur = "ERR" THEN s
  ELSE LET w == SkipW(s.src, s.p, s.nls, s.bol, FALSE, 0, 0)
       IN IF w.e # "" THEN Fail(s, w.e, w.ep, <<>>)
          ELSE LexTok([s EXCEPT !.ts = w.st, !.p = w.p, !.nls = w.nls, !.bol = w.bol], w.c, w.st, s.p)

LexTok(s, c, st, scan) ==
  LET src == s.src
      n == At(src, st + 1)
      n2 == At(src, st + 2)
      T1(t) == Tok(s, st + 1, t, t)          \* one character, whatever follows
      T1p(t) == TokP(s, st + 1, t, t)        \* one character, because of what follows
      T2(t) == Tok(s, st + 2, t, t)
      T2p(t) == TokP(s, st + 2, t, t)
  IN
  IF c >= 97 /\ c <= 122 THEN LexName(s, st, st + 1, "identifier")
  ELSE IF c >= 65 /\ c <= 90 THEN LexName(s, st, st + 1, "type name")
  ELSE IF c >= 49 /\ c <= 57 THEN LexDecimal(s, st)
  ELSE CASE c = 0 -> Tok(s, st, "EOF", "")
    [] c = 36 -> LexVariable(s, st)
    [] c = 39 -> LexSingle(s, st + 1, <<>>, st)
    [] c = 34 -> LexDouble(s, st + 1, <<>>, <<>>, st)
    [] c = 44 -> T1(",")
    [] c = 123 -> Tok(s, st + 1, IF s.cur = "?" THEN "sel{" ELSE "{", "{")
    [] c = 125 -> T1("}")
    [] c = 91 -> Tok(s, st + 1, IF scan < st \/ st = 1 THEN "list[" ELSE "[", "[")
    [] c = 93 -> T1("]")
    [] c = 40 -> LET w == SkipW(src, s.bol, s.nls, s.bol, FALSE, 0, 0)
                 IN IF w.e # "" THEN Fail(s, w.e, w.ep, <<>>)
                    ELSE Tok(s, st + 1, IF w.st = st THEN "ws(" ELSE "(", "(")
    [] c = 41 -> T1(")")
    [] c = 61 -> IF n = 61 THEN T2("==") ELSE IF n = 126 THEN T2("=~") ELSE IF n = 62 THEN T2("=>") ELSE T1p("=")
    [] c = 48 -> LexZero(s, st)
    [] c = 58 -> IF n = 58
                 THEN IF n2 < 0 THEN Fail(s, BadCode(n2), st + 2, <<>>)
                      ELSE IF IsUpper(n2) THEN LexName(s, st, st + 3, "type name")
                      ELSE IF IsLower(n2) THEN LexName(s, st, st + 3, "identifier")
                      ELSE Fail(s, "LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME", st, <<>>)
                 ELSE T1p(":")
    [] c = 59 -> T1(";")
    [] c = 46 -> T1(".")
    [] c = 63 -> T1("?")
    [] c = 45 -> IF n = 61 THEN T2("-=") ELSE IF n = 62 THEN T2("->")
                 ELSE IF n = 37 /\ s.md.epp
                 THEN IF n2 = 62
                      THEN LET b == SkipBlanks(src, st + 3)
                           IN IF At(src, b) < 0 THEN Fail(s, BadCode(src[b]), b, <<>>)
                              ELSE EppNext(s, IF At(src, b) = 10 THEN b + 1 ELSE b)
                      ELSE IF n2 < 0 THEN Fail(s, BadCode(n2), st + 2, <<>>)
                      ELSE Fail(s, "LEX_INVALID_OPERATOR", st + 2, <<<<"op", "-%">>>>)
                 ELSE T1p("-")
    [] c = 43 -> IF n = 61 THEN T2("+=") ELSE IF n = 62 THEN T2("+>") ELSE T1p("+")
    [] c = 42 -> T1("*")
    [] c = 37 -> IF s.md.epp THEN IF n = 62 THEN EppNext(s, st + 2) ELSE T1p("%") ELSE T1("%")
    [] c = 33 -> IF n = 61 THEN T2("!=") ELSE IF n = 126 THEN T2("!~") ELSE T1p("!")
    [] c = 62 -> IF n = 61 THEN T2(">=") ELSE IF n = 62 THEN T2(">>") ELSE T1p(">")
    [] c = 126 -> IF n = 62 THEN T2("~>")
                  ELSE IF n < 0 THEN Fail(s, BadCode(n), st + 1, <<>>)
                  ELSE Fail(s, "LEX_UNEXPECTED_TOKEN", st, <<<<"token", "~">>>>)
    [] c = 64 -> IF n = 64 THEN T2("@@") ELSE IF n = 40 THEN LexHeredoc([s EXCEPT !.p = st + 2]) ELSE T1p("@")
    [] c = 60 -> IF n = 61 THEN T2("<=")
                 ELSE IF n = 60 THEN IF n2 = 124 THEN Tok(s, st + 3, "<<|", "<<|") ELSE T2p("<<")
                 ELSE IF n = 124 THEN T2("<|")
                 ELSE IF n = 45 THEN T2("<-")
                 ELSE IF n = 126 THEN T2("<~")
                 ELSE IF n = 37 /\ s.md.epp
                 THEN IF n2 = 61 THEN Tok(s, st + 3, "<%=", "<%=")
                      ELSE IF n2 < 0 THEN Fail(s, BadCode(n2), st + 2, <<>>)
                      ELSE NextTok([s EXCEPT !.p = IF n2 = 45 THEN st + 3 ELSE st + 2])
                 ELSE T1p("<")
    [] c = 124 -> IF n = 62 THEN IF n2 = 62 THEN Tok(s, st + 3, "|>>", "|>>") ELSE T2p("|>")
                  ELSE IF n < 0 THEN Fail(s, BadCode(n), st + 1, <<>>)
                  ELSE IF s.cur = "|" THEN Tok(s, st + 1, "|end", "|")
                  ELSE LET w == SkipW(src, st + 1, s.nls, s.bol, FALSE, 0, 0)
                       IN IF w.e # "" THEN Fail(s, w.e, w.ep, <<>>)
                          ELSE Tok(s, st + 1, IF w.c = 123 \/ w.c = 62 \/ (s.md.epp /\ w.c \in {37, 45}) THEN "|end" ELSE "|", "|")
    [] c = 47 -> IF s.cur \in OperandEnd THEN T1("/") ELSE LexRegexp(s, st + 1, <<>>, st)
    [] c = 96 /\ s.md.bt -> LexBacktick(s, st + 1, st)
    [] OTHER -> Fail(s, "LEX_UNEXPECTED_TOKEN", st, <<<<"token", TextArg(<<c>>)>>>>)

(******************************** statements *******************************)
StatementCalls == {"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err",
                   "fail", "import", "break", "next", "return"}

IsStatementCall(e) == e.k = "QualifiedName" /\ e.v[1] \in StatementCalls

Expect(s, t) ==
  IF s.cur = t THEN s
  ELSE Fail(s, "PARSE_EXPECTED_TOKEN", s.ts, <<<<"actual", TokName(s.cur)>>, <<"expected", TokName(t)>>>>)
\* the token after an expected one
After(s, t) == NextTok(Expect(s, t))
Unexpected(s) == Fail(s, "LEX_UNEXPECTED_TOKEN", s.ts, <<<<"token", TokName(s.cur)>>>>)

SetRval(e, b) == IF e.k = "CallNamedFunctionExpression" THEN [e EXCEPT !.v = <<b>>] ELSE e

RECURSIVE Transform(_, _, _)
\* A statement function that is followed by something is a call with that as its arguments
Transform(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE LET memo == es[i] IN
    IF i < Len(es) /\ IsStatementCall(memo)
    THEN LET e == es[i + 1]
             args == IF e.k = "CommaList" THEN e.c[1] ELSE <<SetRval(e, TRUE)>>
         IN Transform(es, i + 2, Append(acc, CallNamed(memo, FALSE, args, <<>>, memo.o, EndOf(e) - memo.o)))
    ELSE Transform(es, i + 1, Append(acc, SetRval(memo, FALSE)))

FirstComma(es) ==
  IF \E i \in 1..Len(es) : es[i].k = "CommaList"
  THEN CHOOSE i \in 1..Len(es) : es[i].k = "CommaList" /\ \A j \in 1..(i - 1) : es[j].k # "CommaList"
  ELSE 0

\* The statements of a block
TransformCalls(s, es) ==
  LET res == Transform(es, 1, <<>>)
      x == FirstComma(res)
  IN IF s.cur = "ERR" THEN R(s, <<>>)
     ELSE IF x > 0 THEN R(FailB(s, "PARSE_EXTRANEOUS_COMMA", EndOf(res[x].c[1][1]), <<>>), <<>>)
     ELSE R(s, res)

Statements(s, end, acc) ==
  IF s.cur = end \/ s.cur = "ERR" THEN R(s, acc)
  ELSE LET r == SynStmt(s)
       IN Statements(IF r.s.cur = ";" THEN NextTok(r.s) ELSE r.s, end, Append(acc, r.v))

ParseUntil(s, end, single) ==
  IF s.cur = "ERR" THEN R(s, BadNode)
  ELSE IF single
  THEN IF s.cur = end THEN R(s, N("LiteralUndef", TS(s), 0, <<>>, <<>>))
       ELSE LET r == Relationship(s) IN R(Expect(r.s, end), r.v)
  ELSE LET o == TS(s)
           l == Statements(s, end, <<>>)
           t == TransformCalls(l.s, l.v)
       IN R(t.s, Block(t.v, o, BP(t.s) - o))

\* { statements }, the current token must be {
BlockPart(s) ==
  LET r == ParseUntil(After(s, "{"), "}", FALSE) IN R(NextTok(r.s), r.v)

StmtList(s, acc) ==
  IF s.cur = ","
  THEN LET r == Relationship(NextTok(s)) IN StmtList(r.s, Append(acc, r.v))
  ELSE R(s, acc)

SynStmt(s) ==
  LET r == Relationship(s)
      l == StmtList(r.s, <<r.v>>)
  IN IF Len(l.v) = 1 THEN r
     ELSE R(l.s, N("CommaList", r.v.o, BP(l.s) - r.v.o, <<>>, <<l.v>>))

Produce(what, s) ==
  CASE what = "argument" -> Argument(s)
    [] what = "entry" -> KeyedEntryX(s)
    [] what = "expression" -> Expr(s)
    [] what = "parameter" -> Parameter(s)
    [] what = "selector" -> SelectorEntry(s)
    [] what = "property" -> StepProperty(s)
    [] what = "state" -> StateAttribute(s)
    [] what = "return" -> ReturnParameter(s)
    [] what = "alias" ->
         IF s.cur = "identifier" \/ s.cur \in Keywords
         THEN R(NextTok(s), StrNode(Codes(s.val), TS(s), Len(s.val)))
         ELSE R(Fail(s, "PARSE_EXPECTED_ATTRIBUTE_NAME", s.ts, <<>>), BadNode)

\* Comma separated items up to the end token, which remains current
Exprs(s, end, what, acc) ==
  IF s.cur = end THEN R(s, acc)
  ELSE LET r == Produce(what, s)
           a == Append(acc, r.v)
       IN IF r.s.cur = "," THEN Exprs(NextTok(r.s), end, what, a)
          ELSE IF r.s.cur = end THEN R(r.s, a)
          ELSE R(Fail(r.s, "PARSE_EXPECTED_ONE_OF_TOKENS", r.s.ts,
                      <<<<"actual", TokName(r.s.cur)>>, <<"expected", "'" \o TokName(",") \o "' or '" \o TokName(end) \o "'">>>>), a)

(******************************* expressions *******************************)
KeywordNames == {"type", "function", "plan", "application", "consumes", "produces", "site"}

\* Some keywords are plain names in arguments and collections
HandleKeyword(s) ==
  IF s.cur \in KeywordNames
  THEN LET q == QN(s.val, TS(s), BP(s) - TS(s))
           t == NextTok(s)
       IN IF t.cur = "(" THEN CallX(t, q) ELSE R(t, q)
  ELSE Relationship(s)

Argument(s) ==
  LET k == HandleKeyword(s)
      v == HandleKeyword(NextTok(k.s))
  IN IF k.s.cur = "=>" THEN R(v.s, KeyedEntry(k.v, v.v, k.v.o, BP(v.s) - k.v.o)) ELSE k

KeyedEntryX(s) ==
  LET k == HandleKeyword(s)
      v == HandleKeyword(NextTok(k.s))
  IN IF k.s.cur = "=>" THEN R(v.s, KeyedEntry(k.v, v.v, k.v.o, BP(v.s) - k.v.o))
     ELSE R(Fail(k.s, "PARSE_EXPECTED_FARROW_AFTER_KEY", k.s.p, <<>>), BadNode)

RelOps == {"->", "~>", "<-", "<~"}
RelLoop(s, l) ==
  IF s.cur \in RelOps
  THEN LET r == Assignment(NextTok(s))
       IN RelLoop(r.s, N("RelationshipExpression", l.o, BP(r.s) - l.o, <<s.cur>>, <<<<l>>, <<r.v>>>>))
  ELSE R(s, l)
Relationship(s) == LET r == Assignment(s) IN RelLoop(r.s, r.v)

AssignOps == {"=", "+=", "-="}
AssignLoop(s, l) ==
  IF s.cur \in AssignOps
  THEN LET r == Assignment(NextTok(s))
       IN AssignLoop(r.s, N("AssignmentExpression", l.o, BP(r.s) - l.o, <<s.cur>>, <<<<l>>, <<r.v>>>>))
  ELSE R(s, l)
Assignment(s) == LET r == Step(s) IN AssignLoop(r.s, r.v)

StepStyles == {"action", "resource", "stateHandler", "workflow"}
IsName(s) == s.cur = "identifier" \/ s.cur \in Keywords

Step(s) ==
  LET r == ResourceX(s)
      e == r.v
  IN IF s.md.wf /\ e.k = "QualifiedName" /\ e.v[1] \in StepStyles /\ IsName(r.s)
     THEN StepDecl(NextTok(r.s), s.B[s.ts], e.v[1], r.s.val, TRUE)
     ELSE r

ResourceX(s) ==
  LET r == Expr(s)
  IN IF r.s.cur = "{" THEN ResourceExpr(r.s, r.v.o, r.v, "regular") ELSE r

CapKinds == {"QualifiedName", "QualifiedReference", "ReservedWord", "AccessExpression"}
Expr(s) ==
  LET r == SelectX(s)
  IN IF r.s.cur \in {"produces", "consumes"} /\ r.v.k \in CapKinds THEN Capability(r.s, r.v, r.s.cur) ELSE r

SelectX(s) == LET r == Binary(s, 1) IN SelectLoop(r.s, r.v)
SelectLoop(s, test) ==
  IF s.cur = "?"
  THEN LET t == NextTok(s)
           many == t.cur = "sel{"
           l == IF many THEN Exprs(NextTok(t), "}", "selector", <<>>)
                ELSE LET x == SelectorEntry(t) IN R(x.s, <<x.v>>)
           e == N("SelectorExpression", test.o, BP(l.s) - test.o, <<>>, <<<<test>>, l.v>>)
       IN SelectLoop(IF many THEN NextTok(l.s) ELSE l.s, e)
  ELSE R(s, test)

SelectorEntry(s) ==
  LET o == TS(s)
      m == Expr(s)
      v == Expr(After(m.s, "=>"))
  IN R(v.s, N("SelectorEntry", o, BP(v.s) - o, <<>>, <<<<m.v>>, <<v.v>>>>))

(***************************************************************************)
(* Binary operators.  A higher level binds tighter, all of them are left   *)
(* associative.                                                            *)
(***************************************************************************)
Level(t) ==
  CASE t = "or" -> 1
    [] t = "and" -> 2
    [] t \in {"<", "<=", ">", ">="} -> 3
    [] t \in {"==", "!="} -> 4
    [] t \in {"<<", ">>"} -> 5
    [] t \in {"+", "-"} -> 6
    [] t \in {"*", "/", "%"} -> 7
    [] t \in {"=~", "!~"} -> 8
    [] t = "in" -> 9
    [] OTHER -> 0

BinNode(t, l, r, n) ==
  CASE t = "or" -> N("OrExpression", l.o, n, <<>>, <<<<l>>, <<r>>>>)
    [] t = "and" -> N("AndExpression", l.o, n, <<>>, <<<<l>>, <<r>>>>)
    [] t = "in" -> N("InExpression", l.o, n, <<>>, <<<<l>>, <<r>>>>)
    [] t \in {"<", "<=", ">", ">=", "==", "!="} -> N("ComparisonExpression", l.o, n, <<t>>, <<<<l>>, <<r>>>>)
    [] t \in {"=~", "!~"} -> N("MatchExpression", l.o, n, <<t>>, <<<<l>>, <<r>>>>)
    [] OTHER -> N("ArithmeticExpression", l.o, n, <<t>>, <<<<l>>, <<r>>>>)

BinLoop(s, l, min) ==
  LET lv == Level(s.cur)
  IN IF lv >= min
     THEN LET r == Binary(NextTok(s), lv + 1)
          IN BinLoop(r.s, BinNode(s.cur, l, r.v, BP(r.s) - l.o), min)
     ELSE R(s, l)
Binary(s, min) == LET r == Unary(s) IN IF Level(r.s.cur) >= min THEN BinLoop(r.s, r.v, min) ELSE r

SetPosition(e, o, n) == [e EXCEPT !.o = o, !.n = n]

Unary(s) ==
  LET o == TS(s)
      t == NextTok(s)
      Pre(k, r) == R(r.s, N(k, o, BP(r.s) - o, <<>>, <<<<r.v>>>>))
      digit == IsDigit(At(s.src, s.p))
  IN
  CASE s.cur = "-" ->
         IF digit
         THEN LET neg == [t EXCEPT !.val = IF t.cur = "integer literal" THEN NegInt(t.val) ELSE NegFloat(t.val)]
                  r == Primary(IF t.cur = "ERR" THEN t ELSE neg)
              IN R(r.s, SetPosition(r.v, o, BP(r.s) - o))
         ELSE Pre("UnaryMinusExpression", Primary(t))
    [] s.cur = "+" ->
         IF digit THEN LET r == Primary(t) IN R(r.s, SetPosition(r.v, o, BP(r.s) - o))
         ELSE R(Fail(s, "LEX_UNEXPECTED_TOKEN", s.p, <<<<"token", "+">>>>), BadNode)
    [] s.cur = "!" -> Pre("NotExpression", Unary(t))
    [] s.cur = "*" -> Pre("UnfoldExpression", Unary(t))
    [] s.cur \in {"@", "@@"} ->
         LET r == Primary(t)
         IN ResourceExpr(Expect(r.s, "{"), o, r.v, IF s.cur = "@" THEN "virtual" ELSE "exported")
    [] OTHER -> Primary(s)

RECURSIVE ToCall(_, _, _, _, _)
\* a.b and a.b.c are method calls
ToCall(e, args, lam, o, n) ==
  LET l == Op1(e, 1)
      e2 == IF l.k = "NamedAccessExpression" THEN NamedAccess(ToCall(l, <<>>, <<>>, l.o, l.n), Op1(e, 2), e.o, e.n) ELSE e
  IN CallMethod(e2, args, lam, o, n)

ArrayItems(s) == Exprs(s, "]", "argument", <<>>)

RECURSIVE Joined(_, _, _, _)
\* Adjacent keyed entries form a hash
Joined(es, i, run, acc) ==
  LET Flush == IF run = <<>> THEN acc
               ELSE Append(acc, HashNode(run, run[1].o, EndOf(run[Len(run)]) - run[1].o))
  IN IF i > Len(es) THEN Flush
     ELSE IF es[i].k = "KeyedEntry" THEN Joined(es, i + 1, Append(run, es[i]), acc)
     ELSE Joined(es, i + 1, <<>>, Append(Flush, es[i]))
Join(r) == R(r.s, Joined(r.v, 1, <<>>, <<>>))

Primary(s) == LET r == Atom(s) IN PrimaryLoop(r.s, r.v)
PrimaryLoop(s, e) ==
  CASE s.cur \in {"(", "|"} -> LET r == CallX(s, e) IN PrimaryLoop(r.s, r.v)
    [] s.cur \in {"<|", "<<|"} -> LET r == Collect(s, e) IN PrimaryLoop(r.s, r.v)
    [] s.cur = "[" ->
         LET lb == TS(s)
             r == Join(ArrayItems(NextTok(s)))
             end == BP(r.s)
         IN PrimaryLoop(NextTok(r.s),
              IF IsStatementCall(e) THEN CallNamed(e, FALSE, <<ArrayNode(r.v, lb, end - lb)>>, <<>>, e.o, end - e.o)
              ELSE Access(e, r.v, e.o, end - e.o))
    [] s.cur = "." ->
         LET t == NextTok(s)
             r == IF t.cur = "type" THEN R(NextTok(t), QN("type", TS(t), BP(t) - TS(t))) ELSE Atom(t)
         IN PrimaryLoop(r.s, NamedAccess(e, r.v, e.o, BP(r.s) - e.o))
    [] OTHER -> IF e.k = "NamedAccessExpression" THEN R(s, ToCall(e, <<>>, <<>>, e.o, e.n)) ELSE R(s, e)

Atom(s) ==
  LET o == TS(s)
      n == BP(s) - o
      Leaf(k, v) == R(NextTok(s), N(k, o, n, v, <<>>))
  IN
  CASE s.cur = "identifier" -> Leaf("QualifiedName", <<s.val>>)
    [] s.cur = "variable" ->
         LET t == NextTok(s)
             name == IF s.val[1] = "s" THEN QN(s.val[2], o + 1, Len(s.val[2])) ELSE IntNode(s.val[2], 10, o + 1, BP(t) - (o + 1))
         IN R(t, VarNode(name, o, BP(t) - o))
    [] s.cur = "integer literal" -> Leaf("LiteralInteger", <<s.val, ToString(s.rdx)>>)
    [] s.cur = "string literal" -> Leaf("LiteralString", <<s.val>>)
    [] s.cur = "type name" -> Leaf("QualifiedReference", <<s.val>>)
    [] s.cur \in {"(", "ws("} ->
         LET r == Relationship(NextTok(s))
         IN R(After(r.s, ")"), N("ParenthesizedExpression", o, BP(r.s) - o, <<>>, <<<<r.v>>>>))
    [] s.cur \in {"[", "list["} ->
         LET r == Join(ArrayItems(NextTok(s))) IN R(NextTok(r.s), ArrayNode(r.v, o, BP(r.s) - o))
    [] s.cur = "{" ->
         LET r == Exprs(NextTok(s), "}", "entry", <<>>) IN R(NextTok(r.s), HashNode(r.v, o, BP(r.s) - o))
    [] s.cur = "boolean literal" -> Leaf("LiteralBoolean", <<s.val = "true">>)
    [] s.cur = "float literal" -> Leaf("LiteralFloat", <<s.val>>)
    [] s.cur \in {"attr", "private"} -> Leaf("ReservedWord", <<s.val, FALSE>>)
    [] s.cur = "default" -> Leaf("LiteralDefault", <<>>)
    [] s.cur \in {"heredoc", "dq string literal"} -> R(NextTok(s), s.val)
    [] s.cur = "regexp" -> Leaf("RegexpExpression", <<s.val>>)
    [] s.cur = "undef" -> Leaf("LiteralUndef", <<>>)
    [] s.cur = "case" -> CaseX(s)
    [] s.cur = "if" -> IfX(s, FALSE)
    [] s.cur = "unless" -> IfX(s, TRUE)
    [] s.cur = "class" ->
         LET t == NextTok(s) IN IF t.cur = "{" THEN R(t, QN("class", o, BP(t) - o)) ELSE ClassX(t, o)
    [] s.cur = "type" ->
         LET t == NextTok(s) IN IF t.cur = "type name" THEN TypeAliasOrDef(t, o) ELSE R(t, QN("type", o, BP(t) - o))
    [] s.cur = "plan" -> FunctionDef(s, "PlanDefinition")
    [] s.cur = "function" -> FunctionDef(s, "FunctionDefinition")
    [] s.cur = "node" -> NodeDef(s)
    [] s.cur = "define" -> ResourceDef(s, "ResourceTypeDefinition")
    [] s.cur = "application" -> ResourceDef(s, "Application")
    [] s.cur = "site" -> SiteDef(s)
    [] s.cur = "epp text" -> Leaf("RenderStringExpression", <<s.val>>)
    [] s.cur = "<%=" ->
         LET r == Expr(NextTok(s)) IN R(r.s, N("RenderExpression", o, BP(r.s) - o, <<>>, <<<<r.v>>>>))
    [] OTHER -> R(Unexpected(s), BadNode)

(******************************* conditionals ******************************)
IfX(s, unless) ==
  LET o == TS(s)
      c == Binary(NextTok(s), 1)
      t == BlockPart(c.s)
      e == CASE t.s.cur = "else" -> BlockPart(NextTok(t.s))
             [] t.s.cur = "elsif" -> IF unless THEN R(Fail(t.s, "PARSE_ELSIF_IN_UNLESS", t.s.p, <<>>), BadNode) ELSE IfX(t.s, FALSE)
             [] OTHER -> R(t.s, N("Nop", TS(t.s), 0, <<>>, <<>>))
  IN R(e.s, N(IF unless THEN "UnlessExpression" ELSE "IfExpression", o, BP(e.s) - o, <<>>, <<<<c.v>>, <<t.v>>, <<e.v>>>>))

CaseX(s) ==
  LET o == TS(s)
      t == Expr(NextTok(s))
      os == CaseOptions(After(t.s, "{"), <<>>)
  IN R(NextTok(os.s), N("CaseExpression", o, BP(os.s) - o, <<>>, <<<<t.v>>, os.v>>))

CaseOptions(s, acc) ==
  LET o == TS(s)
      vs == Exprs(s, ":", "expression", <<>>)
      b == BlockPart(NextTok(vs.s))
      opt == N("CaseOption", o, BP(b.s) - o, <<>>, <<vs.v, <<b.v>>>>)
  IN IF b.s.cur = "}" \/ b.s.cur = "ERR" THEN R(b.s, Append(acc, opt)) ELSE CaseOptions(b.s, Append(acc, opt))

(******************************** resources ********************************)
Shape(e) ==
  CASE e.k = "QualifiedName" -> "resource"
    [] e.k = "QualifiedReference" -> "defaults"
    [] e.k = "AccessExpression" -> "access"
    [] OTHER -> "error"

\* The text of a node
NodeText(s, e) ==
  LET a == CHOOSE i \in 1..Len(s.B) : s.B[i] = e.o
      b == CHOOSE i \in 1..Len(s.B) : s.B[i] = EndOf(e)
  IN From(s.src, a, b)

Rewind(s, m, defs) == [s EXCEPT !.p = m.p, !.nls = m.nls, !.cur = m.cur, !.bol = m.bol, !.defs = defs]

\* s: at the opening brace. o: offset of the expression, e: what precedes the brace
ResourceExpr(s, o, e, form) ==
  LET h == TS(s)
      b1 == NextTok(s)
      title == IF b1.cur = "*" THEN R(b1, BadNode) ELSE Expr(b1)
      rs == ResourceBodies(title.s, title.v, <<>>)
      back == NextTok(Rewind(title.s, s, s.defs))
      sh == Shape(e)
      defaults == sh = "defaults" \/ (sh = "access" /\ Op1(e, 1).k = "QualifiedReference"
                    /\ NodeText(s, Op1(e, 1)) = <<82, 101, 115, 111, 117, 114, 99, 101>> /\ Len(e.c[2]) = 1)
      ops == AttrOps(back, <<>>)
      args == Exprs(back, "}", "entry", <<>>)
      Close(r) == R(After(r.s, "}"), r.v)
  IN
  IF s.cur = "ERR" \/ title.s.cur = "ERR" THEN R(IF s.cur = "ERR" THEN s ELSE title.s, BadNode)
  ELSE IF title.s.cur = ":"
  THEN Close(R(rs.s, N("ResourceExpression", o, BP(rs.s) - o, <<form>>, <<<<e>>, rs.v>>)))
  ELSE IF sh = "resource"
  THEN IF e.v[1] \in StatementCalls
       THEN R(NextTok(args.s), CallNamed(e, TRUE, <<HashNode(args.v, h, BP(args.s) - h)>>, <<>>, o, BP(args.s) - o))
       ELSE R(FailB(title.s, "PARSE_RESOURCE_WITHOUT_TITLE", o, <<<<"name", e.v[1]>>>>), BadNode)
  ELSE IF defaults
  THEN Close(R(ops.s, N("ResourceDefaultsExpression", o, BP(ops.s) - o, <<form>>, <<<<e>>, ops.v>>)))
  ELSE IF sh = "access"
  THEN Close(R(ops.s, N("ResourceOverrideExpression", o, BP(ops.s) - o, <<form>>, <<<<e>>, ops.v>>)))
  ELSE R(FailB(title.s, "PARSE_INVALID_RESOURCE", e.o, <<>>), BadNode)

\* s: after the title
ResourceBodies(s, title, acc) ==
  LET ops == AttrOps(NextTok(s), <<>>)
      a == Append(acc, N("ResourceBody", title.o, BP(ops.s) - title.o, <<>>, <<<<title>>, ops.v>>))
      t == NextTok(ops.s)
      t2 == Expr(t)
  IN
  IF s.cur = "ERR" THEN R(s, acc)
  ELSE IF s.cur # ":" THEN R(FailB(s, "PARSE_EXPECTED_TITLE", title.o, <<>>), acc)
  ELSE IF ops.s.cur # ";" THEN R(ops.s, a)
  ELSE IF t.cur = "}" THEN R(t, a)
  ELSE IF t2.s.cur = "}" THEN R(t2.s, a)   \* a title only; reported by what follows
  ELSE ResourceBodies(t2.s, t2.v, a)

AttrOps(s, acc) ==
  IF s.cur \in {";", "}"} THEN R(s, acc)
  ELSE LET r == AttrOp(s)
           a == Append(acc, r.v)
       IN IF r.s.cur = "," THEN AttrOps(NextTok(r.s), a) ELSE R(r.s, a)

AttrOp(s) ==
  LET o == TS(s)
      all == Expr(After(NextTok(s), "=>"))
      t == NextTok(s)
      v == Expr(NextTok(t))
  IN
  IF s.cur = "*" THEN R(all.s, N("AttributesOperation", o, BP(all.s) - o, <<>>, <<<<all.v>>>>))
  ELSE IF ~IsName(s) THEN R(Fail(s, "PARSE_EXPECTED_ATTRIBUTE_NAME", s.ts, <<>>), BadNode)
  ELSE IF t.cur \in {"=>", "+>"} THEN R(v.s, N("AttributeOperation", o, BP(v.s) - o, <<t.cur, s.val>>, <<<<v.v>>>>))
  ELSE R(Fail(t, "PARSE_INVALID_ATTRIBUTE", t.p, <<>>), BadNode)

Collect(s, lhs) ==
  LET o == TS(s)
      virtual == s.cur = "<|"
      end == IF virtual THEN "|>" ELSE "|>>"
      t == NextTok(s)
      q0 == Expr(t)
      q == IF t.cur = end THEN R(t, IF virtual THEN N("Nop", TS(t), 0, <<>>, <<>>) ELSE N("Nop", o, TS(t) - o, <<>>, <<>>))
           ELSE R(Expect(q0.s, end), q0.v)
      u == NextTok(q.s)
      query == N(IF virtual THEN "VirtualQuery" ELSE "ExportedQuery", o, BP(u) - o, <<>>, <<<<q.v>>>>)
      ops0 == AttrOps(NextTok(u), <<>>)
      ops == IF u.cur = "{" THEN R(After(ops0.s, "}"), ops0.v) ELSE R(u, <<>>)
  IN R(ops.s, N("CollectExpression", lhs.o, BP(ops.s) - lhs.o, <<>>, <<<<lhs>>, <<query>>, ops.v>>))

(********************************** calls **********************************)
CallX(s, f) ==
  LET args0 == Join(Exprs(NextTok(s), ")", "argument", <<>>))
      paren == s.cur # "|"
      t == IF paren THEN NextTok(args0.s) ELSE s
      args == IF paren THEN args0.v ELSE <<>>
      lam == Lambda(t)
      hasLam == t.cur = "|"
      end == IF hasLam THEN EndOf(lam.v) ELSE IF paren THEN BP(args0.s) ELSE EndOf(f)
      rs == IF hasLam THEN lam.s ELSE t
      lams == IF hasLam THEN <<lam.v>> ELSE <<>>
  IN IF rs.cur = "ERR" THEN R(rs, BadNode)
     ELSE IF f.k = "NamedAccessExpression" THEN R(rs, ToCall(f, args, lams, f.o, end - f.o))
     ELSE R(rs, CallNamed(f, TRUE, args, lams, f.o, end - f.o))

\* optional >> Type
ReturnType(s) ==
  IF s.cur = ">>" THEN LET r == ParameterType(NextTok(s)) IN R(r.s, <<r.v>>) ELSE R(s, <<>>)

Lambda(s) ==
  LET o == TS(s)
      ps == LambdaParams(s)
      rt == ReturnType(NextTok(ps.s))
      b == ParseUntil(After(rt.s, "{"), "}", FALSE)
  IN R(NextTok(b.s), N("LambdaExpression", o, BP(b.s) - o, <<>>, <<ps.v, <<b.v>>, rt.v>>))

LambdaParams(s) == Exprs(NextTok(s), "|end", "parameter", <<>>)
ParamList(s) == IF s.cur \in {"(", "ws("} THEN Exprs(NextTok(s), ")", "parameter", <<>>) ELSE R(s, <<>>)
\* An optional parameter list including its end
Params(s) == IF s.cur \in {"(", "ws("} THEN LET r == ParamList(s) IN R(NextTok(r.s), r.v) ELSE R(s, <<>>)
ReturnParams(s) == IF s.cur \in {"(", "ws("} THEN Exprs(NextTok(s), ")", "return", <<>>) ELSE R(s, <<>>)

Parameter(s) ==
  LET o == TS(s)
      ty0 == ParameterType(s)
      ty == IF s.cur = "type name" THEN R(ty0.s, <<ty0.v>>) ELSE R(s, <<>>)
      rest == ty.s.cur = "*"
      t == IF rest THEN NextTok(ty.s) ELSE ty.s
      u == NextTok(t)
      d0 == Expr(NextTok(u))
      d == IF u.cur = "=" THEN R(d0.s, <<d0.v>>) ELSE R(u, <<>>)
  IN IF t.cur # "variable" \/ t.val[1] # "s" THEN R(Fail(t, "PARSE_EXPECTED_VARIABLE", t.p, <<>>), BadNode)
     ELSE R(d.s, N("Parameter", o, BP(d.s) - o, <<t.val[2], rest>>, <<ty.v, d.v>>))

ReturnParameter(s) ==
  LET o == TS(s)
      ty0 == ParameterType(s)
      ty == IF s.cur = "type name" THEN R(ty0.s, <<ty0.v>>) ELSE R(s, <<>>)
      t == ty.s
      u == NextTok(t)
      w == NextTok(u)
      po == TS(w)
      l == Exprs(NextTok(w), ")", "alias", <<>>)
      a == Produce("alias", w)
      d == IF u.cur # "=" THEN R(u, <<>>)
           ELSE IF w.cur \in {"(", "ws("} THEN R(NextTok(l.s), <<ArrayNode(l.v, po, BP(l.s) - po)>>)
           ELSE R(a.s, <<a.v>>)
  IN IF t.cur # "variable" \/ t.val[1] # "s" THEN R(Fail(t, "PARSE_EXPECTED_VARIABLE", t.p, <<>>), BadNode)
     ELSE R(d.s, N("Parameter", o, BP(d.s) - o, <<t.val[2], FALSE>>, <<ty.v, d.v>>))

ParameterType(s) ==
  LET o == TS(s)
      q == QR(s.val, o, BP(s) - o)
      t == NextTok(s)
      l == Join(ArrayItems(NextTok(t)))
  IN IF s.cur # "type name" THEN R(Fail(s, "PARSE_EXPECTED_TYPE_NAME", s.p, <<>>), BadNode)
     ELSE IF t.cur = "[" THEN R(NextTok(l.s), Access(q, l.v, o, BP(l.s) - o))
     ELSE R(t, q)

(******************************* definitions *******************************)
\* Definitions are collected in the order in which they end
Define(s, d) == R(IF s.cur = "ERR" THEN s ELSE [s EXCEPT !.defs = Append(@, <<d.k, d.o, d.n>>)], d)
Push(s, name) == [s EXCEPT !.names = Append(@, name)]
Pop(s) == IF s.cur = "ERR" THEN s ELSE [s EXCEPT !.names = SubSeq(@, 1, Len(@) - 1)]

RECURSIVE JoinNames(_, _, _)
JoinNames(ns, i, acc) == IF i > Len(ns) THEN acc ELSE JoinNames(ns, i + 1, acc \o ns[i] \o "::")
Qualified(s, name) == JoinNames(s.names, 1, "") \o name

FunctionDef(s, k) ==
  LET o == TS(s)
      t == NextTok(s)
      name == t.val
      u == NextTok(t)
      ps == Params(IF k = "PlanDefinition" THEN Push(u, name) ELSE u)
      rt == ReturnType(ps.s)
      b == BlockPart(rt.s)
      e == IF k = "PlanDefinition" THEN Pop(b.s) ELSE b.s
  IN IF t.cur \notin {"identifier", "type name"}
     THEN R(Fail(t, IF k = "PlanDefinition" THEN "PARSE_EXPECTED_NAME_AFTER_PLAN" ELSE "PARSE_EXPECTED_NAME_AFTER_FUNCTION", t.ts, <<>>), BadNode)
     ELSE IF e.cur = "ERR" THEN R(e, BadNode)
     ELSE Define(e, N(k, o, BP(e) - o, <<name>>, <<ps.v, rt.v, <<b.v>>>>))

\* Name of a class, a defined type, or a capability: [s, v]
ClassName(s) ==
  CASE s.cur \in {"type name", "identifier"} -> R(NextTok(s), s.val)
    [] s.cur \in {"string literal", "dq string literal"} -> R(Fail(s, "PARSE_QUOTED_NOT_VALID_NAME", s.ts, <<>>), "")
    [] s.cur = "class" -> R(Fail(s, "PARSE_CLASS_NOT_VALID_HERE", s.ts, <<>>), "")
    [] OTHER -> R(Fail(s, "PARSE_EXPECTED_CLASS_NAME", s.ts, <<>>), "")

NoTopScope(name) == IF Len(name) > 2 /\ SubSeq(name, 1, 2) = "::" THEN SubSeq(name, 3, Len(name)) ELSE name

\* s: after the keyword
ClassX(s, o) ==
  LET c == ClassName(s)
      name == NoTopScope(c.v)
      ps == Params(Push(c.s, name))
      t == NextTok(ps.s)
      par == IF ps.s.cur # "inherits" THEN R(ps.s, "")
             ELSE IF t.cur = "default" THEN R(NextTok(t), "default") ELSE ClassName(t)
      b == BlockPart(par.s)
      e == Pop(b.s)
  IN IF e.cur = "ERR" THEN R(e, BadNode)
     ELSE Define(e, N("HostClassDefinition", o, BP(e) - o, <<Qualified(e, name), par.v>>, <<ps.v, <<b.v>>>>))

ResourceDef(s, k) ==
  LET o == TS(s)
      c == ClassName(NextTok(s))
      ps == Params(c.s)
      b == BlockPart(ps.s)
  IN Define(b.s, N(k, o, BP(b.s) - o, <<c.v>>, <<ps.v, <<b.v>>>>))

SiteDef(s) ==
  LET o == TS(s)
      b == BlockPart(NextTok(s))
  IN Define(b.s, N("SiteDefinition", o, BP(b.s) - o, <<>>, <<<<b.v>>>>))

Capability(s, comp, kind) ==
  LET c == ClassName(NextTok(s))
      ops == AttrOps(After(c.s, "{"), <<>>)
      t == After(ops.s, "}")
      comp2 == IF comp.k = "ReservedWord" THEN QN(Qualified(t, comp.v[1]), comp.o, comp.n) ELSE comp
  IN IF t.cur = "ERR" THEN R(t, BadNode)
     ELSE Define(t, N("CapabilityMapping", comp.o, BP(t) - comp.o, <<kind, Qualified(t, c.v)>>, <<<<comp2>>, ops.v>>))

NodeDef(s) ==
  LET o == TS(s)
      hs == Hostnames(NextTok(s), <<>>)
      p0 == Hostname(NextTok(hs.s))
      p == IF hs.s.cur = "inherits" THEN R(p0.s, <<p0.v>>) ELSE R(hs.s, <<>>)
      b == BlockPart(p.s)
  IN Define(b.s, N("NodeDefinition", o, BP(b.s) - o, <<>>, <<p.v, hs.v, <<b.v>>>>))

Hostnames(s, acc) ==
  LET h == Hostname(s)
      a == Append(acc, h.v)
      t == NextTok(h.s)
  IN IF h.s.cur # "," THEN R(h.s, a)
     ELSE IF t.cur \in {"inherits", "{"} THEN R(t, a)
     ELSE Hostnames(t, a)

Hostname(s) ==
  LET o == TS(s)
      n == BP(s) - o
  IN CASE s.cur \in {"identifier", "type name", "integer literal", "float literal"} -> DottedName(s, o, <<>>)
       [] s.cur = "regexp" -> R(NextTok(s), N("RegexpExpression", o, n, <<s.val>>, <<>>))
       [] s.cur = "string literal" -> R(NextTok(s), N("LiteralString", o, n, <<s.val>>, <<>>))
       [] s.cur = "default" -> R(NextTok(s), N("LiteralDefault", o, n, <<>>, <<>>))
       [] s.cur \in {"dq string literal", "heredoc"} -> R(NextTok(s), s.val)
       [] OTHER -> R(Fail(s, "PARSE_EXPECTED_HOSTNAME", s.p, <<>>), BadNode)

\* Names and numbers separated by dots; numbers count as they are written
DottedName(s, o, acc) ==
  LET a == acc \o From(s.src, s.ts, s.p)
      t == NextTok(s)
  IN IF s.cur \notin {"identifier", "type name", "integer literal", "float literal"}
     THEN R(Fail(s, "PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT", s.p, <<>>), BadNode)
     ELSE IF t.cur = "." THEN DottedName(NextTok(t), o, Append(a, 46))
     ELSE R(t, N("LiteralString", o, BP(t) - o, <<a>>, <<>>))

(***************************** types in Puppet *****************************)
\* s: at the type name, o: offset of the keyword
TypeAliasOrDef(s, o) ==
  LET ty == ParameterType(s)
      t == ty.s
      name == ty.v.v[1]
      u == NextTok(t)
      m == Expr(u)
      bo == TS(u)
      b == m.v
      h == Atom(m.s)
      Obj(n) == QR("Object", bo, n)
      Parent == KeyedEntry(StrNode(Codes("parent"), b.o, b.n), b, b.o, b.n)
      body ==
        CASE b.k = "QualifiedReference" ->
               IF m.s.cur = "{"
               THEN LET n == BP(h.s) - bo
                    IN IF b.v[1] \in {"Object", "TypeSet"} THEN R(h.s, Access(b, <<h.v>>, bo, n))
                       ELSE R(h.s, Access(Obj(0), <<HashNode(<<Parent>> \o (IF h.v.k = "LiteralHash" THEN h.v.c[1] ELSE <<>>), bo, n)>>, bo, n))
               ELSE m
          [] b.k = "LiteralList" ->
               IF Len(b.c[1]) = 1 THEN R(m.s, Access(Obj(0), b.c[1], bo, BP(m.s) - bo)) ELSE m
          [] b.k = "LiteralHash" -> R(m.s, Access(Obj(0), <<b>>, bo, BP(m.s) - bo))
          [] OTHER -> m
      parentTok == u
      pt == NextTok(u)
      par == IF t.cur = "inherits" THEN parentTok.val ELSE ""
      blk == ParseUntil(IF t.cur = "inherits" THEN After(pt, "{") ELSE u, "}", FALSE)
      bs == NextTok(blk.s)
  IN
  IF t.cur = "ERR" THEN R(t, BadNode)
  ELSE IF ty.v.k # "QualifiedReference"
  THEN IF t.cur = "="
       THEN IF m.s.cur = "ERR" THEN R(m.s, BadNode)
            ELSE Define(m.s, N("TypeMapping", o, BP(m.s) - o, <<>>, <<<<ty.v>>, <<b>>>>))
       ELSE R(Fail(t, "PARSE_EXPECTED_TYPE_NAME_AFTER_TYPE", t.p, <<>>), BadNode)
  ELSE CASE t.cur = "=" ->
              IF m.s.cur = "ERR" THEN R(m.s, BadNode)
              ELSE IF body.s.cur = "ERR" THEN R(body.s, BadNode)
              ELSE Define(body.s, N("TypeAlias", o, BP(body.s) - o, <<name>>, <<<<body.v>>>>))
         [] t.cur = "inherits" ->
              IF u.cur # "type name" THEN R(Fail(u, "PARSE_INHERITS_MUST_BE_TYPE_NAME", u.p, <<>>), BadNode)
              ELSE Define(bs, N("TypeDefinition", o, BP(bs) - o, <<name, par>>, <<<<blk.v>>>>))
         [] t.cur = "{" -> Define(bs, N("TypeDefinition", o, BP(bs) - o, <<name, "">>, <<<<blk.v>>>>))
         [] OTHER -> R(Fail(t, "LEX_UNEXPECTED_TOKEN", t.p, <<<<"token", TokName(t.cur)>>>>), BadNode)

(******************************** workflows ********************************)
StepProperty(s) ==
  LET o == TS(s)
      key == QN(s.val, o, BP(s) - o)
      t == NextTok(s)
      v == NextTok(t)
      vo == TS(v)
      ps == ParamList(v)
      rs == ReturnParams(v)
      x == CASE s.val = "parameters" -> R(NextTok(ps.s), ArrayNode(ps.v, vo, BP(ps.s) - vo))
             [] s.val = "returns" -> R(NextTok(rs.s), ArrayNode(rs.v, vo, BP(rs.s) - vo))
             [] OTHER -> HandleKeyword(v)
  IN IF ~IsName(s) THEN R(Fail(s, "PARSE_EXPECTED_ATTRIBUTE_NAME", s.ts, <<>>), BadNode)
     ELSE IF t.cur # "=>" THEN R(Fail(t, "PARSE_EXPECTED_FARROW_AFTER_KEY", t.p, <<>>), BadNode)
     ELSE R(x.s, KeyedEntry(key, x.v, o, BP(x.s) - o))

StateAttribute(s) ==
  LET o == TS(s)
      key == QN(s.val, o, BP(s) - o)
      t == NextTok(s)
      v == Expr(NextTok(t))
  IN IF ~IsName(s) THEN R(Fail(s, "PARSE_EXPECTED_ATTRIBUTE_NAME", s.ts, <<>>), BadNode)
     ELSE IF t.cur # "=>" THEN R(Fail(t, "PARSE_INVALID_ATTRIBUTE", t.p, <<>>), BadNode)
     ELSE R(v.s, KeyedEntry(key, v.v, o, BP(v.s) - o))

RECURSIVE Deferred(_)
DeferAll(es) == [i \in 1..Len(es) |-> Deferred(es[i])]
\* Calls and variables in the state of a resource are evaluated later
Deferred(e) ==
  LET New == QN("new", e.o, 0)
      Call(args) == CallMethod(NamedAccess(QR("Deferred", e.o, 0), New, e.o, 0), args, <<>>, e.o, e.n)
      f == Op1(e, 1)
  IN
  CASE e.k \in {"LiteralList", "LiteralHash"} -> [e EXCEPT !.c = <<DeferAll(e.c[1])>>]
    [] e.k = "KeyedEntry" -> [e EXCEPT !.c = <<<<Deferred(Op1(e, 1))>>, <<Deferred(Op1(e, 2))>>>>]
    [] e.k = "CallNamedFunctionExpression" ->
         CASE f.k = "QualifiedName" ->
                Call(<<StrNode(Codes(f.v[1]), e.o, e.n), ArrayNode(DeferAll(e.c[2]), e.o, 0)>>)
           [] f.k = "QualifiedReference" -> Call(<<New, ArrayNode(DeferAll(<<f>> \o e.c[2]), e.o, 0)>>)
           [] OTHER -> e
    [] e.k = "VariableExpression" ->
         Call(<<StrNode(<<36>> \o (IF f.k = "QualifiedName" THEN Codes(f.v[1]) ELSE <<>>), e.o, e.n)>>)
    [] OTHER -> e

StepExpression(s) ==
  LET t == NextTok(s)
  IN IF s.cur = "function" THEN FunctionDef(s, "FunctionDefinition")
     ELSE IF ~(s.cur = "identifier" /\ s.val \in StepStyles) THEN R(Fail(s, "PARSE_EXPECTED_STEP_STYLE", s.p, <<>>), BadNode)
     ELSE IF ~IsName(t) THEN R(Fail(t, "PARSE_EXPECTED_STEP_NAME", t.ts, <<<<"step", s.val>>>>), BadNode)
     ELSE StepDecl(NextTok(t), TS(s), s.val, t.val, FALSE)

Activities(s, acc) ==
  IF s.cur \in {"}", "ERR"} THEN R(NextTok(s), acc)
  ELSE LET r == StepExpression(s) IN Activities(r.s, Append(acc, r.v))

\* s: after the name of the step
StepDecl(s0, o, style, name, top) ==
  LET s == IF style = "workflow" THEN Push(s0, name) ELSE s0
      ho == TS(s)
      props == Exprs(After(s, "{"), "}", "property", <<>>)
      hlen == BP(props.s) - ho
      a == NextTok(props.s)
      var == a.cur = "variable"
      badVar == var /\ a.val[1] # "s"
      b == IF badVar THEN Fail(a, "PARSE_EXPECTED_VARIABLE", a.p, <<>>)
           ELSE IF var THEN Expect(After(NextTok(a), "="), "identifier") ELSE a
      iname == IF var /\ ~badVar THEN a.val[2] ELSE name
      \* iteration
      fn == b.val
      fs == TS(b)
      nl == Len(fn)
      p0 == NextTok(b)
      ps == TS(p0)
      ips == ParamList(p0)
      v0 == NextTok(ips.s)
      vs == TS(v0)
      ivs == LambdaParams(v0)
      c == NextTok(ivs.s)
      KE(k, ko, v, vn) == KeyedEntry(QN(k, ko, 0), v, ko, vn)
      iter == HashNode(<<KE("name", fs, QN(iname, fs, nl), nl),
                         KE("function", fs, QN(fn, fs, nl), nl),
                         KE("params", ps, ArrayNode(ips.v, ps, vs - ps), vs - ps),
                         KE("vars", vs, ArrayNode(ivs.v, vs, BP(c) - vs), BP(c) - vs)>>, fs, BP(c) - fs)
      hasIter == b.cur = "identifier"
      okIter == fn \in {"times", "range", "each"}
      d == IF ~hasIter THEN b
           ELSE IF okIter THEN c
           ELSE Fail(b, "PARSE_EXPECTED_ITERATOR_STYLE", b.p, <<<<"style", fn>>>>)
      entries == IF hasIter THEN Append(props.v, KE("iteration", fs, iter, BP(c) - fs)) ELSE props.v
      properties == IF entries = <<>> THEN <<>> ELSE <<HashNode(entries, ho, hlen)>>
      bo == TS(d)
      acts == Activities(NextTok(d), <<>>)
      st == Exprs(NextTok(d), "}", "state", <<>>)
      blk == BlockPart(d)
      def ==
        CASE d.cur = "ERR" -> R(d, <<>>)
          [] style = "workflow" ->
               IF d.cur = "{" THEN R(Pop(acts.s), IF acts.v = <<>> THEN <<>> ELSE <<Block(acts.v, bo, BP(acts.s) - bo)>>)
               ELSE R(Pop(d), <<>>)
          [] style = "resource" ->
               IF d.cur = "{" THEN R(NextTok(st.s), IF st.v = <<>> THEN <<>> ELSE <<HashNode(DeferAll(st.v), o, BP(st.s) - o)>>)
               ELSE R(d, <<>>)
          [] OTHER -> R(blk.s, <<blk.v>>)
      e == def.s
      node == N("StepExpression", o, BP(e) - o, <<Qualified(e, name), style>>, <<properties, def.v>>)
  IN IF e.cur = "ERR" THEN R(e, BadNode)
     ELSE IF top THEN Define(e, node) ELSE R(e, node)

(******************************* entry points ******************************)
EppLambda(params, body, s) ==
  N("LambdaExpression", 0, BP(s), <<>>, <<params, <<N("EppExpression", 0, BP(s), <<TRUE>>, <<<<body>>>>)>>, <<>>>>)

RECURSIVE EppStatements(_, _)
EppStatements(s, acc) ==
  IF s.cur \in {"EOF", "ERR"} THEN R(s, acc)
  ELSE LET r == SynStmt(s) IN EppStatements(IF r.s.cur = ";" THEN NextTok(r.s) ELSE r.s, Append(acc, r.v))

ParseEpp(s0) ==
  LET a == EppNext(s0, 1)
      hasText == a.cur = "epp text"
      text == IF hasText THEN a.val ELSE <<>>
      s == IF hasText THEN NextTok(a) ELSE a
      Render(n) == N("RenderStringExpression", 0, n, <<text>>, <<>>)
      ps == LambdaParams(s)
      body == ParseUntil(NextTok(ps.s), "EOF", FALSE)
      first == IF text = <<>> THEN <<>> ELSE <<Render(TS(s))>>
      l == EppStatements(s, first)
      t == TransformCalls(l.s, l.v)
  IN
  IF s.cur = "ERR" THEN R(s, BadNode)
  ELSE IF s.cur = "EOF" THEN R(s, EppLambda(<<>>, Block(<<Render(BP(s))>>, 0, BP(s)), s))
  ELSE IF s.cur = "|"
  THEN IF text # <<>> THEN R(Fail(s, "PARSE_ILLEGAL_EPP_PARAMETERS", s.p, <<>>), BadNode)
       ELSE R(body.s, EppLambda(ps.v, body.v, body.s))
  ELSE R(t.s, EppLambda(<<>>, Block(t.v, 0, BP(t.s)), t.s))

\* The index of the character at a byte offset
IndexAt(s, b) == IF s.B[Len(s.B)] = Len(s.src) THEN b + 1 ELSE CHOOSE i \in 1..Len(s.B) : s.B[i] = b

(***************************************************************************)
(* Outcome of parsing a source:                                            *)
(*   ok   TRUE when it is a program                                        *)
(*   ast  its tree                defs  its definitions [kind, at, length] *)
(*   code, line, pos, args        the error when it is not                 *)
(***************************************************************************)
Outcome(src, md, single) ==
  LET s0 == NewReader(src, md)
      r == IF md.epp THEN ParseEpp(s0) ELSE ParseUntil(NextTok(s0), "EOF", single)
      s == r.s
      prog == N("Program", 0, BP(s), <<>>, <<<<r.v>>>>)
      i == IndexAt(s, s.err.b)
  IN IF s.cur # "ERR"
     THEN [ok |-> TRUE, ast |-> IF single THEN r.v ELSE prog, defs |-> s.defs]
     ELSE IF s.err.c \in {"NUL", "UNICODE"}
     THEN [ok |-> FALSE, code |-> s.err.c, line |-> 0, pos |-> s.err.b, args |-> <<>>]
     ELSE [ok |-> FALSE, code |-> s.err.c, line |-> LineOf(src, i), pos |-> PosOf(src, i), args |-> s.err.a]

RECURSIVE LexAll(_, _, _, _)
\* Tokens of the plain lexer: <<name, line and position just after it>>, marked when they are keywords
LexAll(s, acc, limit, at) ==
  LET t == NextTok(s)
      a == Append(acc, <<TokName(t.cur)>> \o at[t.p] \o (IF t.cur \in Keywords THEN <<"keyword">> ELSE <<>>))
      i == IndexAt(t, t.err.b)
  IN IF limit = 0 THEN acc
     ELSE IF t.cur = "ERR"
     THEN IF t.err.c \in {"NUL", "UNICODE"} THEN Append(acc, <<t.err.c, 0, t.err.b>>)
          ELSE Append(acc, <<t.err.c>> \o at[i])
     ELSE IF t.cur = "EOF" THEN a
     ELSE LexAll(t, a, limit - 1, at)

NoMode == [epp |-> FALSE, hex |-> FALSE, bt |-> FALSE, tasks |-> FALSE, wf |-> FALSE, ast |-> TRUE]
Tokens(src) == LexAll(NewReader(src, [NoMode EXCEPT !.ast = FALSE]), <<>>, 10000, Lines(src))
=============================================================================
