------------------------------ MODULE CdBytes ------------------------------
(***************************************************************************)
(* Fixed width two's complement arithmetic, as candice's integer types     *)
(* define it.  A number of 8*n bits is a sequence of n bytes, the least    *)
(* significant one first (TLC's own integers are 32 bits wide, so a 64 bit *)
(* value can not be one of them).  Every operator is total on sequences of *)
(* equal length unless it says otherwise.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Byte == 0..255
Zero(n) == TLCEval([i \in 1..n |-> 0])
One(n)  == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])

\* (TLCEval forces TLC to build each function once, it is the identity)

\* a small non negative TLC integer as n bytes
RECURSIVE FromNatRec(_, _)
FromNatRec(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o FromNatRec(v \div 256, n - 1)
FromNat(v, n) == FromNatRec(v, n)

IsNegB(a) == a[Len(a)] >= 128

Inv(a) == TLCEval([i \in DOMAIN a |-> 255 - a[i]])

RECURSIVE AddRec(_, _, _, _)
AddRec(a, b, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + carry
       IN <<s % 256>> \o AddRec(a, b, i + 1, s \div 256)
AddB(a, b) == AddRec(a, b, 1, 0)
NegB(a) == AddRec(Inv(a), Zero(Len(a)), 1, 1)
SubB(a, b) == AddRec(a, Inv(b), 1, 1)

\* TLC integer (possibly negative, |v| < 2^31) as n bytes
FromInt(v, n) == IF v >= 0 THEN FromNat(v, n) ELSE NegB(FromNat(-v, n))

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + ColSum(a, b, k, i + 1)
RECURSIVE MulRec(_, _, _, _)
MulRec(a, b, k, carry) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == ColSum(a, b, k, 1) + carry
       IN <<s % 256>> \o MulRec(a, b, k + 1, s \div 256)
MulB(a, b) == MulRec(a, b, 1, 0)

\* unsigned order
RECURSIVE LtRec(_, _, _)
LtRec(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtRec(a, b, i - 1)
ULt(a, b) == LtRec(a, b, Len(a))
\* signed order
SLt(a, b) == IF IsNegB(a) # IsNegB(b) THEN IsNegB(a) ELSE ULt(a, b)

IsZeroB(a) == \A i \in DOMAIN a : a[i] = 0

\* value of a that is known to be < 2^30
Small(a) == /\ \A i \in DOMAIN a : i > 4 => a[i] = 0
            /\ (Len(a) >= 4 => a[4] < 64)
RECURSIVE ToNatRec(_, _)
ToNatRec(a, i) == IF i > Len(a) \/ i > 4 THEN 0 ELSE a[i] + 256 * ToNatRec(a, i + 1)
ToNat(a) == ToNatRec(a, 1)
\* signed value of a number whose absolute value is < 2^30
SmallS(a) == IF IsNegB(a) THEN Small(NegB(a)) /\ ~IsNegB(NegB(a)) ELSE Small(a)
ToIntS(a) == IF IsNegB(a) THEN -ToNat(NegB(a)) ELSE ToNat(a)

Shl1(a, bit) == TLCEval([i \in DOMAIN a |-> ((a[i] * 2) % 256) + (IF i = 1 THEN bit ELSE a[i - 1] \div 128)])
BitAt(a, k) == (a[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2

\* long division, one bit at a time: rem < b is the invariant, b # 0.
\* The remainder keeps one byte more than b so that shifting it never overflows.
RECURSIVE DivRec(_, _, _, _, _)
DivRec(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r1 == Shl1(r, BitAt(a, k))
           ge == ~ULt(r1, b)
       IN DivRec(a, b, k - 1, Shl1(q, IF ge THEN 1 ELSE 0), IF ge THEN SubB(r1, b) ELSE r1)
UDivMod(a, b) ==
  LET n == Len(a) IN
  IF Small(a) /\ Small(b)
  THEN <<FromNat(ToNat(a) \div ToNat(b), n), FromNat(ToNat(a) % ToNat(b), n)>>
  ELSE LET qr == DivRec(a, b \o <<0>>, 8 * n - 1, Zero(n), Zero(n + 1))
       IN <<qr[1], SubSeq(qr[2], 1, n)>>
UDivB(a, b) == UDivMod(a, b)[1]
URemB(a, b) == UDivMod(a, b)[2]
AbsB(a) == IF IsNegB(a) THEN NegB(a) ELSE a
\* truncates toward zero
SDivB(a, b) == LET q == UDivB(AbsB(a), AbsB(b)) IN IF IsNegB(a) # IsNegB(b) THEN NegB(q) ELSE q
\* has the sign of the dividend
SRemB(a, b) == LET r == URemB(AbsB(a), AbsB(b)) IN IF IsNegB(a) THEN NegB(r) ELSE r
\* the most negative number divided by -1 does not fit
DivOverflows(a, b) == IsZeroB(SubB(a, NegB(a))) /\ IsNegB(a) /\ \A i \in DOMAIN b : b[i] = 255

AndB(a, b) == TLCEval([i \in DOMAIN a |-> a[i] & b[i]])
OrB(a, b)  == TLCEval([i \in DOMAIN a |-> a[i] | b[i]])
XorB(a, b) == TLCEval([i \in DOMAIN a |-> a[i] ^^ b[i]])

\* shifts by 0 <= k < 8 * Len(a)
ShlB(a, k) ==
  LET by == k \div 8  bi == k % 8
      At(j) == IF j < 1 THEN 0 ELSE a[j]
  IN TLCEval([i \in DOMAIN a |-> ((At(i - by) * (2 ^ bi)) % 256) + (At(i - by - 1) \div (2 ^ (8 - bi)))])
ShrB(a, k) ==
  LET by == k \div 8  bi == k % 8
      At(j) == IF j > Len(a) THEN 0 ELSE a[j]
  IN TLCEval([i \in DOMAIN a |-> (At(i + by) \div (2 ^ bi)) + ((At(i + by + 1) * (2 ^ (8 - bi))) % 256)])

\* width changes
ZExt(a, n) == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0])
SExt(a, n) == TLCEval([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IsNegB(a) THEN 255 ELSE 0])

\* digits
RECURSIVE DivSmallRec(_, _, _, _, _)
DivSmallRec(a, d, i, q, r) ==   \* q: the quotient of the bytes above i, r: the remainder
  IF i = 0 THEN <<q, r>>
  ELSE LET v == r * 256 + a[i]
       IN DivSmallRec(a, d, i - 1, <<v \div d>> \o q, v % d)
\* <<a \div d, a % d>> for 0 < d < 2^23
DivSmall(a, d) == DivSmallRec(a, d, Len(a), <<>>, 0)
RECURSIVE DecRec(_)
DecRec(a) == IF Small(a) /\ ToNat(a) < 10 THEN <<48 + ToNat(a)>>
             ELSE LET qr == DivSmall(a, 10) IN Append(DecRec(qr[1]), 48 + qr[2])
RECURSIVE DecNat(_)
DecNat(v) == IF v < 10 THEN <<48 + v>> ELSE Append(DecNat(v \div 10), 48 + (v % 10))
\* decimal text, as a sequence of ASCII codes
UDec(a) == IF Small(a) THEN DecNat(ToNat(a)) ELSE DecRec(a)
SDec(a) == IF IsNegB(a) THEN <<45>> \o UDec(NegB(a)) ELSE UDec(a)

\* the number that the digits of a literal denote, modulo 2^(8n)
RECURSIVE MulAddSmall(_, _, _, _)
MulAddSmall(a, m, carry, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] * m + carry IN <<s % 256>> \o MulAddSmall(a, m, s \div 256, i + 1)
RECURSIVE DigitsRec(_, _, _, _)
DigitsRec(ds, base, i, acc) ==
  IF i > Len(ds) THEN acc ELSE DigitsRec(ds, base, i + 1, MulAddSmall(acc, base, ds[i], 1))
Digits(ds, base, n) == DigitsRec(ds, base, 1, Zero(n))
=============================================================================
