------------------------------ MODULE Floats -------------------------------
(***************************************************************************)
(* Floating point numbers, exactly.  A float is an IEEE 754 double: M*2^e  *)
(* with M < 2^53 and e >= -1074.  It is known by the shortest decimal      *)
(* digits that denote it: the string  D \o "e" \o X  stands for            *)
(* 0.D * 10^(X+1), i.e. X is the exponent of the first digit.  Zero is     *)
(* "0e0".                                                                  *)
(*                                                                         *)
(* Whole numbers beyond the integers of TLC are limbs: tuples of numbers   *)
(* below 10^4, least significant first, the last one not zero.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LIMB == 10000

RECURSIVE LimbMulAt(_, _, _, _, _)
LimbMulAt(a, m, c, i, acc) ==
  IF i > Len(a)
  THEN IF c = 0 THEN acc ELSE LimbMulAt(a, m, c \div LIMB, i, Append(acc, c % LIMB))
  ELSE LET v == a[i] * m + c IN LimbMulAt(a, m, v \div LIMB, i + 1, Append(acc, v % LIMB))
\* a * m + c for small m (at most 10^5) and c
LimbMul(a, m, c) == LimbMulAt(a, m, c, 1, <<>>)

RECURSIVE LimbStrip(_)
LimbStrip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN LimbStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE LimbSubAt(_, _, _, _, _)
LimbSubAt(a, b, c, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET v == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c
       IN LimbSubAt(a, b, IF v < 0 THEN 1 ELSE 0, i + 1, Append(acc, IF v < 0 THEN v + LIMB ELSE v))
\* a - b, for b <= a
LimbSub(a, b) == LimbStrip(LimbSubAt(a, b, 0, 1, <<>>))

RECURSIVE LimbCmpAt(_, _, _)
LimbCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE LimbCmpAt(a, b, i - 1)
\* -1, 0 or 1
LimbCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE LimbCmpAt(a, b, Len(a))

\* a * b^n, where b^k = bk is the largest power to multiply with at once
RECURSIVE LimbPowers(_, _, _, _, _)
LimbPowers(a, b, k, bk, n) ==
  IF n <= 0 THEN a
  ELSE IF n >= k THEN LimbPowers(LimbMul(a, bk, 0), b, k, bk, n - k)
  ELSE LimbMul(a, b^n, 0)
Times2(a, n) == LimbPowers(a, 2, 16, 65536, n)
Times5(a, n) == LimbPowers(a, 5, 7, 78125, n)
Times10(a, n) == IF n <= 0 THEN a ELSE LimbMul([i \in 1..(n \div 4) |-> 0] \o a, 10^(n % 4), 0)

\* The number with the decimal digits ds (codes) from i on
RECURSIVE LimbsOf(_, _, _)
LimbsOf(ds, j, acc) ==
  IF j = 0 THEN LimbStrip(acc)
  ELSE LET d(k) == IF k >= 1 THEN ds[k] - 48 ELSE 0
       IN LimbsOf(ds, IF j > 4 THEN j - 4 ELSE 0, Append(acc, d(j) + 10 * d(j - 1) + 100 * d(j - 2) + 1000 * d(j - 3)))
FourDigits(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE LimbDigitsAt(_, _, _)
LimbDigitsAt(a, i, acc) == IF i = 0 THEN acc ELSE LimbDigitsAt(a, i - 1, acc \o FourDigits(a[i]))
RECURSIVE NoLeadingZeros(_)
NoLeadingZeros(ds) == IF ds # <<>> /\ ds[1] = 48 THEN NoLeadingZeros(Tail(ds)) ELSE ds
RECURSIVE NoTrailingZeros(_)
NoTrailingZeros(ds) == IF ds # <<>> /\ ds[Len(ds)] = 48 THEN NoTrailingZeros(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
\* Its decimal digits (codes), without leading zeros
LimbDigits(a) == NoLeadingZeros(LimbDigitsAt(a, Len(a), <<>>))

RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
\* about the number of bits (at most one less or more than that)
LimbBits(a) == ((Len(a) - 1) * 132877) \div 10000 + Bits(a[Len(a)])

RECURSIVE LimbSubTimesAt(_, _, _, _, _, _)
LimbSubTimesAt(a, b, m, c, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET v == a[i] - (IF i <= Len(b) THEN b[i] * m ELSE 0) + c
       IN LimbSubTimesAt(a, b, m, v \div LIMB, i + 1, Append(acc, v % LIMB))
\* a - b * m, for b * m <= a and small m. (The division of TLA+ rounds down, so that the carry is negative.)
LimbSubTimes(a, b, m) == LimbStrip(LimbSubTimesAt(a, b, m, 0, 1, <<>>))

RECURSIVE Scale(_)
Scale(n) == IF n < 500000 THEN 1 ELSE 10 * Scale(n \div 10)
LimbAt(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
\* r \div t, for r < 4096 * t, or one less than that: the quotient of what they begin with (t with 10^4 at least)
Estimate(r, t) ==
  LET n == Len(t)
      top == LimbAt(t, n) * LIMB + LimbAt(t, n - 1)
      s == Scale(top)
      \* what r has in the places of the first two limbs of t, divided by s: at most 4096 * 500000
      high == LimbAt(r, n + 1) * (100000000 \div s) + (LimbAt(r, n) * LIMB + LimbAt(r, n - 1)) \div s
  IN high \div (top \div s + 1)
\* The quotient (in 12 * n bits) of r \div t, for r < 4096 * t, where the weight of the first 12 bits is 4096^(n-1), and what remains
RECURSIVE Quotient(_, _, _, _)
Quotient(r, t, n, q) ==
  IF n = 0 THEN [q |-> q, r |-> r]
  ELSE LET d == Estimate(r, t)
           w == LimbSubTimes(r, t, d)
           more == LimbCmp(w, t) >= 0
           v == IF more THEN LimbSub(w, t) ELSE w
       IN Quotient(IF n = 1 THEN v ELSE LimbMul(v, 4096, 0), t, n - 1, LimbMul(q, 4096, IF more THEN d + 1 ELSE d))

Odd(a) == a # <<>> /\ a[1] % 2 = 1
TwoTo53 == Times2(<<1>>, 53)

\* The double that is nearest to a/b, the even one of two that are equally near. With e the weight of the last of 53 bits, a/b is in
\* 2^(e+52) .. 2^(e+53), unless e is the least possible exponent. A quotient of 60 bits is made of five times 12 bits.
RECURSIVE NearestAt(_, _, _)
NearestAt(a, b, e) ==
  LET r == Times2(a, -e - 48)
      t == Times2(b, e + 48)
      low == LimbCmp(r, LimbMul(t, 16, 0)) < 0
  IN IF e > -1074 /\ low THEN NearestAt(a, b, e - 1)
     ELSE IF ~low /\ LimbCmp(r, LimbMul(t, 32, 0)) >= 0 THEN NearestAt(a, b, e + 1)
     ELSE LET q == Quotient(r, t, 5, <<>>)
              half == LimbCmp(LimbMul(q.r, 2, 0), t)
              m == IF half > 0 \/ (half = 0 /\ Odd(q.q)) THEN LimbMul(q.q, 1, 1) ELSE q.q
          IN IF m = TwoTo53 THEN [m |-> Times2(<<1>>, 52), e |-> e + 1] ELSE [m |-> m, e |-> e]

\* The nearest double to the number with the digits ds times 10^k; it is beyond the range of doubles when e > 971
Double(ds, k) ==
  LET d == LimbsOf(ds, Len(ds), <<>>)
      a == Times10(d, k)
      b == Times10(<<1>>, -k)
      e == LimbBits(a) - LimbBits(b) - 52
  IN IF d = <<>> THEN [m |-> <<>>, e |-> 0] ELSE NearestAt(a, b, IF e < -1074 THEN -1074 ELSE e)

\* The digits (codes) of the exact value of a double, and the exponent of the first one
Exactly(f) ==
  LET ds == LimbDigits(IF f.e >= 0 THEN Times2(f.m, f.e) ELSE Times5(f.m, -f.e))
      x == (IF f.e >= 0 THEN 0 ELSE f.e) + Len(ds) - 1
  IN [d |-> ds, x |-> x]

\* one more in the last place
RECURSIVE Increment(_, _)
Increment(ds, i) == IF i = 0 THEN <<49>> \o ds ELSE IF ds[i] = 57 THEN Increment([ds EXCEPT ![i] = 48], i - 1) ELSE [ds EXCEPT ![i] = @ + 1]
Tidy(ds, x) == IF NoTrailingZeros(ds) = <<>> THEN [d |-> <<48>>, x |-> 0] ELSE [d |-> NoTrailingZeros(ds), x |-> x]
RoundedUp(ds, x, n) == LET u == Increment(SubSeq(ds, 1, n), n) IN Tidy(u, x + Len(u) - n)
RoundedDown(ds, x, n) == Tidy(SubSeq(ds, 1, n), x)
\* -1, 0 or 1 when what follows the first n digits is less than, as much as, or more than half of the last place
Half(ds, n) ==
  IF ds[n + 1] # 53 THEN (IF ds[n + 1] < 53 THEN -1 ELSE 1)
  ELSE IF \A i \in (n + 2)..Len(ds) : ds[i] = 48 THEN 0 ELSE 1
\* Rounded to n digits, half to even
Rounded(v, n) ==
  IF Len(v.d) <= n THEN Tidy(v.d, v.x)
  ELSE LET h == Half(v.d, n)
       IN IF h > 0 \/ (h = 0 /\ v.d[n] % 2 = 1) THEN RoundedUp(v.d, v.x, n) ELSE RoundedDown(v.d, v.x, n)

Denotes(v, f) == Double(v.d, v.x + 1 - Len(v.d)) = f

\* The shortest digits that denote the double f, and of those the nearest to its value v
RECURSIVE ShortestAt(_, _, _)
ShortestAt(f, v, n) ==
  IF n >= Len(v.d) THEN Tidy(v.d, v.x)
  ELSE LET near == Rounded(v, n)
           up == RoundedUp(v.d, v.x, n)
           down == RoundedDown(v.d, v.x, n)
           other == IF near = up THEN down ELSE up
       IN IF Denotes(near, f) THEN near ELSE IF Denotes(other, f) THEN other ELSE ShortestAt(f, v, n + 1)
\* (all decimals of 15 digits can be told apart, but those of numbers near zero)
ShortestDigits(f) == ShortestAt(f, Exactly(f), IF f.e > -1074 THEN 15 ELSE 1)
=============================================================================
