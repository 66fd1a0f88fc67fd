------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters, names, numbers and strings as the reference semantics sees  *)
(* them.  A source text is a tuple of code points.  Two negative codes     *)
(* mark the first position at which a source stops being text at all:      *)
(*    -1  a NUL character          -2  a byte that is not valid UTF-8      *)
(* Reading beyond the end of a source yields 0 (end of source).            *)
(* The value of a string literal is a tuple of code points too; bytes that *)
(* do not form valid UTF-8 (they can be made with \xNN escapes) are        *)
(* negative: -b denotes the byte b.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Letters, Floats

AsciiChars == <<
  " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

NUL == -1       \* a NUL character in the source
BADUTF8 == -2   \* an invalid UTF-8 sequence in the source

\* The character at index i (1-based), or 0 when i is beyond the end
At(src, i) == IF i <= Len(src) THEN src[i] ELSE 0

IsDigit(c) == c >= 48 /\ c <= 57
IsOctal(c) == c >= 48 /\ c <= 55
IsHex(c)   == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
IsWord(c)  == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ (c >= 48 /\ c <= 57)

\* Letters as Unicode defines them. The underscore is not one of them.
IsUniLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ (c > 127 /\ IsLetterBeyondAscii(c))

\* The first index from i on that has a character with P, or the one behind the text. (TLC tries candidates in order,
\* so that this takes no more steps than there are characters)
First(src, i, P(_)) ==
  IF i > Len(src) THEN i
  ELSE IF \E k \in i..Len(src) : P(src[k]) THEN CHOOSE k \in i..Len(src) : P(src[k]) /\ \A j \in i..(k - 1) : ~P(src[j])
  ELSE Len(src) + 1

Folds == INSTANCE SequencesExt

\* number of bytes used by a character
ByteSize(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

\* Byte offset of each character, and of the end of the source
ByteOffsets(src) ==
  IF \A i \in 1..Len(src) : src[i] < 128
  THEN [i \in 1..(Len(src) + 1) |-> i - 1]
  ELSE Folds!FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + ByteSize(c)), <<0>>, src)

\* Text between index a and index b, b excluded
From(src, a, b) == SubSeq(src, a, b - 1)

AsciiCode == [c \in {AsciiChars[i] : i \in 1..Len(AsciiChars)} |-> 31 + CHOOSE i \in 1..Len(AsciiChars) : AsciiChars[i] = c]
\* The characters of a string
Codes(str) == [i \in 1..Len(str) |-> AsciiCode[SubSeq(str, i, i)]]

Cat(cs, acc) == Folds!FoldLeft(LAMBDA t, c : t \o AsciiChars[c - 31], acc, cs)

\* The text between a and b, which must be printable ASCII, as a string
Str(src, a, b) == Cat(From(src, a, b), "")

Printable(cs) == \A i \in 1..Len(cs) : cs[i] >= 32 /\ cs[i] <= 126
\* Text as it appears in the arguments of an issue
TextArg(cs) == IF Printable(cs) THEN Cat(cs, "") ELSE cs

(*************************** line and position *****************************)
LineStart(src, i) == IF i <= 1 THEN 1 ELSE i + 1 - CHOOSE k \in 1..i : (k = i \/ src[i - k] = 10) /\ \A j \in 1..(k - 1) : src[i - j] # 10
\* Line and position (both from 1) of the character at index i
LineOf(src, i) == 1 + Cardinality({j \in 1..(i - 1) : src[j] = 10})
PosOf(src, i) == 1 + i - LineStart(src, i)

\* <<line, position>> of every index, the one behind the text included
Lines(src) ==
  Folds!FoldLeft(LAMBDA acc, c : LET at == acc[Len(acc)] IN Append(acc, IF c = 10 THEN <<at[1] + 1, 1>> ELSE <<at[1], at[2] + 1>>), <<<<1, 1>>>>, src)

(******************************* scanning **********************************)
ScanWord(src, i) == First(src, i, LAMBDA c : ~IsWord(c))
ScanDigits(src, i) == First(src, i, LAMBDA c : ~IsDigit(c))
ScanHex(src, i) == First(src, i, LAMBDA c : ~IsHex(c))
ScanOctal(src, i) == First(src, i, LAMBDA c : ~IsOctal(c))
ScanDashes(src, i) == First(src, i, LAMBDA c : c # 45)
SkipSign(src, i) == IF At(src, i) \in {43, 45} THEN i + 1 ELSE i

(****************************** whole numbers ******************************)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* decimal digits, least significant first, multiplied by base plus d
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, base, carry) ==
  IF ds = <<>>
  THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulAdd(<<>>, base, carry \div 10)
  ELSE LET v == Head(ds) * base + carry
       IN <<v % 10>> \o MulAdd(Tail(ds), base, v \div 10)

\* the number that digits denote, as decimal digits
BigOf(ds, base) == Folds!FoldLeft(LAMBDA acc, d : MulAdd(acc, base, HexVal(d)), <<>>, ds)

RECURSIVE DigitsStr(_, _, _)
DigitsStr(ds, i, acc) == IF i = 0 THEN acc ELSE DigitsStr(ds, i - 1, acc \o AsciiChars[ds[i] + 17])

RECURSIVE StripTrailingZeros(_)
StripTrailingZeros(ds) ==
  IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripTrailingZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

RECURSIVE LessEq(_, _, _)
LessEq(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessEq(a, b, i - 1)

\* 9223372036854775807, least significant first
MaxInt64 == <<7, 0, 8, 5, 7, 7, 4, 5, 8, 6, 3, 0, 2, 7, 3, 3, 2, 2, 9>>
FitsInt64(ds) == Len(ds) < 19 \/ (Len(ds) = 19 /\ LessEq(ds, MaxInt64, 19))

\* The number written with the given base at i..j-1: [ok, v], v the decimal numeral
IntOf(src, i, j, base) ==
  IF base = 10 /\ j - i < 19 /\ (src[i] # 48 \/ j = i + 1)
  THEN [ok |-> TRUE, v |-> Str(src, i, j)]
  ELSE LET ds == StripTrailingZeros(BigOf(From(src, i, j), base))
       IN IF FitsInt64(ds)
          THEN [ok |-> TRUE, v |-> IF ds = <<>> THEN "0" ELSE DigitsStr(ds, Len(ds), "")]
          ELSE [ok |-> FALSE, v |-> "0"]

NegInt(v) == IF v = "0" THEN "0" ELSE "-" \o v

(************************** floating point numbers *************************)
RECURSIVE IntVal(_, _, _, _)
IntVal(src, i, j, acc) == IF i >= j THEN acc
  ELSE IntVal(src, i + 1, j, IF acc > 99999 THEN acc ELSE acc * 10 + src[i] - 48)

FirstNonZero(ds) == LET i == First(ds, 1, LAMBDA d : d # 48) IN IF i > Len(ds) THEN 0 ELSE i
RECURSIVE LastNonZero(_, _)
LastNonZero(ds, i) == IF i = 0 THEN 0 ELSE IF ds[i] # 48 THEN i ELSE LastNonZero(ds, i - 1)

FloatStr(v) == Str(v.d, 1, Len(v.d) + 1) \o "e" \o ToString(v.x)
\* The float that is nearest to the digits ds times 10^k
NearestFloat(ds, k) ==
  LET f == Double(ds, k)
  IN IF f.e > 971 THEN [ok |-> FALSE, v |-> "0e0"]
     ELSE IF f.m = <<>> THEN [ok |-> TRUE, v |-> "0e0"]
     ELSE [ok |-> TRUE, v |-> FloatStr(ShortestDigits(f))]

\* ip: integer digits, fp: fraction digits, ex: exponent
FloatCanon(ip, fp, ex) ==
  LET ds == ip \o fp
      f == FirstNonZero(ds)
      l == LastNonZero(ds, Len(ds))
  IN IF f = 0 THEN [ok |-> TRUE, v |-> "0e0"]
     ELSE LET x == ex + Len(ip) - f
          IN IF x < -330 THEN [ok |-> TRUE, v |-> "0e0"]
             ELSE IF x > 308 THEN [ok |-> FALSE, v |-> "0e0"]
             ELSE IF l - f < 15 /\ x \in -300..307 THEN [ok |-> TRUE, v |-> Str(ds, f, l + 1) \o "e" \o ToString(x)]
             ELSE NearestFloat(From(ds, f, l + 1), x + f - l)

\* The float that the text i..j-1 (digits [. digits] [eE [+-] digits]) denotes
FloatOf(src, i, j) ==
  LET a == ScanDigits(src, i)
      dot == At(src, a) = 46 /\ a < j
      b == IF dot THEN ScanDigits(src, a + 1) ELSE a
      hasE == b < j
      eneg == hasE /\ At(src, b + 1) = 45
      es == IF hasE THEN SkipSign(src, b + 1) ELSE j
      ev == IntVal(src, es, j, 0)
  IN FloatCanon(From(src, i, a), IF dot THEN From(src, a + 1, b) ELSE <<>>, IF eneg THEN -ev ELSE ev)

NegFloat(v) == "-" \o v

(**************************** string contents ******************************)
\* what a rune that cannot be encoded is turned into
Rune(v) == IF v > 1114111 \/ (v >= 55296 /\ v <= 57343) THEN 65533 ELSE v

RECURSIVE HexNum(_, _, _, _)
HexNum(src, i, j, acc) == IF i >= j THEN acc ELSE HexNum(src, i + 1, j, acc * 16 + HexVal(src[i]))

EncodeByte(b) == IF b < 128 THEN b ELSE -b

\* UTF-8 bytes (as 0..255) of a code
Utf8(c) ==
  IF c < 0 THEN <<-c>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

AllBytes(cs) == Folds!FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, cs)

Cont(bs, i) == i <= Len(bs) /\ bs[i] >= 128 /\ bs[i] <= 191

\* Decode bytes; a byte that is not part of a valid sequence b becomes -b
RECURSIVE DecodeBytes(_, _, _)
DecodeBytes(bs, i, acc) ==
  IF i > Len(bs) THEN acc
  ELSE LET b == bs[i] IN
    IF b < 128 THEN DecodeBytes(bs, i + 1, Append(acc, b))
    ELSE IF b >= 194 /\ b <= 223 /\ Cont(bs, i + 1)
    THEN DecodeBytes(bs, i + 2, Append(acc, (b - 192) * 64 + bs[i + 1] - 128))
    ELSE IF b >= 224 /\ b <= 239 /\ Cont(bs, i + 1) /\ Cont(bs, i + 2)
            /\ LET v == (b - 224) * 4096 + (bs[i + 1] - 128) * 64 + bs[i + 2] - 128
               IN v >= 2048 /\ ~(v >= 55296 /\ v <= 57343)
    THEN DecodeBytes(bs, i + 3, Append(acc, (b - 224) * 4096 + (bs[i + 1] - 128) * 64 + bs[i + 2] - 128))
    ELSE IF b >= 240 /\ b <= 244 /\ Cont(bs, i + 1) /\ Cont(bs, i + 2) /\ Cont(bs, i + 3)
            /\ LET v == (b - 240) * 262144 + (bs[i + 1] - 128) * 4096 + (bs[i + 2] - 128) * 64 + bs[i + 3] - 128
               IN v >= 65536 /\ v <= 1114111
    THEN DecodeBytes(bs, i + 4, Append(acc, (b - 240) * 262144 + (bs[i + 1] - 128) * 4096 + (bs[i + 2] - 128) * 64 + bs[i + 3] - 128))
    ELSE DecodeBytes(bs, i + 1, Append(acc, -b))

\* Adjacent bytes made by escapes may form characters
Normal(cs) == IF \A i \in 1..Len(cs) : cs[i] >= 0 THEN cs ELSE DecodeBytes(AllBytes(cs), 1, <<>>)
=============================================================================
