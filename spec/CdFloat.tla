------------------------------ MODULE CdFloat ------------------------------
(***************************************************************************)
(* Floating point numbers as IEEE 754 defines them: binary32 (4 bytes) and *)
(* binary64 (8 bytes), rounding to nearest, ties to even.                  *)
(*                                                                         *)
(* A number in memory is its bytes, the least significant one first.  Not  *)
(* a number has no bytes of its own, because the standard does not say     *)
(* which: it is the mark NaNMark in every place, so that a program that    *)
(* looks at its bytes (or prints it) has no defined meaning.               *)
(*                                                                         *)
(* To compute, a number is taken apart: [k, s, m, e] with k in "fin",      *)
(* "inf", "nan", the sign s, and the value m * 2^e, m a sequence of 8      *)
(* bytes.  Results are exact in more bytes and Pack rounds them.           *)
(***************************************************************************)
EXTENDS CdBytes

NaNMark == 1000
NaN(n) == TLCEval([i \in 1..n |-> NaNMark])
MantBits(n) == IF n = 4 THEN 24 ELSE 53           \* bits of a mantissa
ELow(n) == IF n = 4 THEN -149 ELSE -1074      \* exponent of the smallest number
FieldMax(n) == IF n = 4 THEN 255 ELSE 2047    \* the exponent field of infinity

\* number of bits of a: 0 for zero
RECURSIVE TopByte(_, _)
TopByte(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE TopByte(a, i - 1)
BitsOfByte(b) == IF b >= 16 THEN (IF b >= 64 THEN (IF b >= 128 THEN 8 ELSE 7) ELSE IF b >= 32 THEN 6 ELSE 5)
                 ELSE IF b >= 4 THEN (IF b >= 8 THEN 4 ELSE 3) ELSE IF b >= 2 THEN 2 ELSE b
BitLen(a) == LET i == TopByte(a, Len(a)) IN IF i = 0 THEN 0 ELSE 8 * (i - 1) + BitsOfByte(a[i])
\* is one of the bits below bit k set?
AnyBelow(a, k) == LET by == k \div 8 IN
  (\E i \in 1..Len(a) : i <= by /\ a[i] # 0) \/ (by < Len(a) /\ a[by + 1] % (2 ^ (k % 8)) # 0)

FInf(n, s) == IF n = 4 THEN <<0, 0, 128, 127 + 128 * s>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
FZero(n, s) == TLCEval([i \in 1..n |-> IF i = n THEN 128 * s ELSE 0])

Unpack(c) ==
  LET n == Len(c)
      s == c[n] \div 128
      x == IF n = 4 THEN (c[4] % 128) * 2 + c[3] \div 128 ELSE (c[8] % 128) * 16 + c[7] \div 16
      f == IF n = 4 THEN <<c[1], c[2], c[3] % 128, 0, 0, 0, 0, 0>> ELSE <<c[1], c[2], c[3], c[4], c[5], c[6], c[7] % 16, 0>>
      one == IF n = 4 THEN [f EXCEPT ![3] = @ + 128] ELSE [f EXCEPT ![7] = @ + 16]
  IN IF c[1] = NaNMark THEN [k |-> "nan", s |-> 0, m |-> Zero(8), e |-> 0]
     ELSE IF x = FieldMax(n) THEN [k |-> IF IsZeroB(f) THEN "inf" ELSE "nan", s |-> s, m |-> Zero(8), e |-> 0]
     ELSE IF x = 0 THEN [k |-> "fin", s |-> s, m |-> f, e |-> ELow(n)]
     ELSE [k |-> "fin", s |-> s, m |-> one, e |-> ELow(n) + x - 1]
Fin0(v) == v.k = "fin" /\ IsZeroB(v.m)

\* the number nearest to (-1)^s * m * 2^e, where `more` says that the exact value is a little larger
Pack(n, s, m, e, more) ==
  LET bl == BitLen(m)
      p == MantBits(n)
      k0 == bl - p
      k == IF k0 > ELow(n) - e THEN k0 ELSE ELow(n) - e       \* bits to drop
      w == 8 * Len(m)
      q0 == IF k <= 0 THEN ShlB(ZExt(m, 8), -k)
            ELSE IF k >= w THEN Zero(8) ELSE ZExt(ShrB(m, k), 8)
      half == k > 0 /\ k <= w /\ BitAt(m, k - 1) = 1
      low == more \/ (k > 0 /\ (IF k > w THEN bl > 0 ELSE AnyBelow(m, k - 1)))
      up == half /\ (low \/ q0[1] % 2 = 1)
      q == IF up THEN AddB(q0, One(8)) ELSE q0
      f == e + k - ELow(n)
      r == AddB(q, ShlB(FromNat(f, 8), p - 1))
  IN IF bl = 0 THEN FZero(n, s)
     ELSE IF f >= FieldMax(n) - 1 THEN FInf(n, s)
     ELSE TLCEval([i \in 1..n |-> IF i = n THEN r[i] + 128 * s ELSE r[i]])

Neg(c) == IF Unpack(c).k = "nan" THEN NaN(Len(c)) ELSE [c EXCEPT ![Len(c)] = (@ + 128) % 256]

\* a + b, both finite and not zero: hi has the larger exponent
AddFin(n, hi, lo) ==
  LET d == hi.e - lo.e
      \* a number that is far smaller only says on which side of hi the sum is
      a == IF d <= 64 THEN ShlB(ZExt(hi.m, 16), d) ELSE ShlB(ZExt(hi.m, 16), 8)
      b == IF d <= 64 THEN ZExt(lo.m, 16) ELSE One(16)
      e == IF d <= 64 THEN lo.e ELSE hi.e - 8
  IN IF hi.s = lo.s THEN Pack(n, hi.s, AddB(a, b), e, FALSE)
     ELSE IF a = b THEN FZero(n, 0)
     ELSE IF ULt(a, b) THEN Pack(n, lo.s, SubB(b, a), e, FALSE) ELSE Pack(n, hi.s, SubB(a, b), e, FALSE)
FAdd(x, y) ==
  LET n == Len(x)  a == Unpack(x)  b == Unpack(y) IN
  IF a.k = "nan" \/ b.k = "nan" THEN NaN(n)
  ELSE IF a.k = "inf" THEN IF b.k = "inf" /\ a.s # b.s THEN NaN(n) ELSE FInf(n, a.s)
  ELSE IF b.k = "inf" THEN FInf(n, b.s)
  ELSE IF Fin0(a) THEN IF Fin0(b) THEN FZero(n, IF a.s = 1 /\ b.s = 1 THEN 1 ELSE 0) ELSE y
  ELSE IF Fin0(b) THEN x
  ELSE IF a.e >= b.e THEN AddFin(n, a, b) ELSE AddFin(n, b, a)
FSub(x, y) == FAdd(x, Neg(y))

SignXor(a, b) == IF a.s = b.s THEN 0 ELSE 1
FMul(x, y) ==
  LET n == Len(x)  a == Unpack(x)  b == Unpack(y)  s == SignXor(a, b) IN
  IF a.k = "nan" \/ b.k = "nan" THEN NaN(n)
  ELSE IF a.k = "inf" \/ b.k = "inf" THEN IF Fin0(a) \/ Fin0(b) THEN NaN(n) ELSE FInf(n, s)
  ELSE IF Fin0(a) \/ Fin0(b) THEN FZero(n, s)
  ELSE Pack(n, s, MulB(ZExt(a.m, 2 * n), ZExt(b.m, 2 * n)), a.e + b.e, FALSE)
FDiv(x, y) ==
  LET n == Len(x)  a == Unpack(x)  b == Unpack(y)  s == SignXor(a, b)
      w == IF n = 4 THEN 8 ELSE 15
      sh == 8 * w - 3 - BitLen(a.m)
      qr == UDivMod(ShlB(ZExt(a.m, w), sh), ZExt(b.m, w))
  IN
  IF a.k = "nan" \/ b.k = "nan" THEN NaN(n)
  ELSE IF a.k = "inf" THEN IF b.k = "inf" THEN NaN(n) ELSE FInf(n, s)
  ELSE IF b.k = "inf" THEN FZero(n, s)
  ELSE IF Fin0(b) THEN IF Fin0(a) THEN NaN(n) ELSE FInf(n, s)
  ELSE IF Fin0(a) THEN FZero(n, s)
  ELSE Pack(n, s, qr[1], a.e - b.e - sh, ~IsZeroB(qr[2]))
\* m * 2^d modulo b, bit by bit
RECURSIVE ModPow(_, _, _)
ModPow(m, b, d) == IF d = 0 THEN m
                   ELSE LET t == Shl1(m, 0) IN ModPow(IF ULt(t, b) THEN t ELSE SubB(t, b), b, d - 1)
\* the remainder of the division that truncates: it is exact and has the sign of x
FRem(x, y) ==
  LET n == Len(x)  a == Unpack(x)  b == Unpack(y)
      d == a.e - b.e
      r == ModPow(URemB(ZExt(a.m, 9), ZExt(b.m, 9)), ZExt(b.m, 9), d)
  IN
  IF a.k = "nan" \/ b.k = "nan" \/ a.k = "inf" \/ Fin0(b) THEN NaN(n)
  ELSE IF b.k = "inf" \/ Fin0(a) THEN x
  ELSE IF d >= 0 THEN IF IsZeroB(r) THEN FZero(n, a.s) ELSE Pack(n, a.s, r, b.e, FALSE)
  ELSE IF -d > 56 THEN x
  ELSE LET q == URemB(ZExt(a.m, 16), ShlB(ZExt(b.m, 16), -d))
       IN IF IsZeroB(q) THEN FZero(n, a.s) ELSE Pack(n, a.s, q, a.e, FALSE)
\* the specification does not compute remainders of numbers that are extremely far apart
FRemTooFar(x, y) == Unpack(x).e - Unpack(y).e > 150
FArith(op, x, y) ==
  CASE op = "+" -> FAdd(x, y) [] op = "-" -> FSub(x, y) [] op = "*" -> FMul(x, y)
    [] op = "/" -> FDiv(x, y) [] op = "%" -> FRem(x, y)
FOps == {"+", "-", "*", "/", "%"}

\* x ? y: "lt", "eq", "gt", or "no" when one of them is not a number
MagLt(x, y) == ULt([x EXCEPT ![Len(x)] = @ % 128], [y EXCEPT ![Len(y)] = @ % 128])
FCmp(x, y) ==
  LET a == Unpack(x)  b == Unpack(y) IN
  IF a.k = "nan" \/ b.k = "nan" THEN "no"
  ELSE IF Fin0(a) /\ Fin0(b) THEN "eq"
  ELSE IF x = y THEN "eq"
  ELSE IF a.s # b.s THEN (IF a.s = 1 THEN "lt" ELSE "gt")
  ELSE IF MagLt(x, y) = (a.s = 0) THEN "lt" ELSE "gt"
\* == and its negation, and the orders, which do not hold for what is not a number
FTest(op, x, y) == LET r == FCmp(x, y) IN
  CASE op = "==" -> r = "eq" [] op = "!=" -> r # "eq"
    [] op = "<" -> r = "lt" [] op = "<=" -> r \in {"lt", "eq"}
    [] op = ">" -> r = "gt" [] op = ">=" -> r \in {"gt", "eq"}
FTrue(x) == ~Fin0(Unpack(x))
IsNaN(x) == Unpack(x).k = "nan"

\* conversions
FFromInt(n, b, unsigned) == IF ~unsigned /\ IsNegB(b) THEN Pack(n, 1, NegB(b), 0, FALSE) ELSE Pack(n, 0, b, 0, FALSE)
FToF(n, x) == LET a == Unpack(x) IN
  IF a.k = "nan" THEN NaN(n) ELSE IF a.k = "inf" THEN FInf(n, a.s) ELSE Pack(n, a.s, a.m, a.e, FALSE)
\* toward zero: <<fits, bytes>>
FToInt(x, n, unsigned) ==
  LET a == Unpack(x)
      bl == BitLen(a.m) + a.e
      m == IF a.e >= 0 THEN ShlB(ZExt(a.m, 9), a.e) ELSE IF -a.e >= 64 THEN Zero(9) ELSE ZExt(ShrB(a.m, -a.e), 9)
      r == SubSeq(m, 1, n)
  IN IF a.k # "fin" \/ bl > 64 THEN <<FALSE, x>>
     ELSE LET ml == BitLen(m) IN
          IF unsigned THEN <<ml <= 8 * n /\ (a.s = 0 \/ ml = 0), r>>
          ELSE IF a.s = 0 THEN <<ml < 8 * n, r>>
          ELSE <<ml < 8 * n \/ (ml = 8 * n /\ ~AnyBelow(m, 8 * n - 1)), NegB(r)>>

\* the digits ds, the last k of them after the point (D / 10^k = D / 5^k / 2^k), as a number of n bytes
\* a divided by 5^k: <<quotient, is there a remainder?>>
RECURSIVE DivPow5(_, _, _)
DivPow5(a, k, rest) ==
  IF k = 0 THEN <<a, rest>>
  ELSE LET j == IF k > 9 THEN 9 ELSE k
           qr == DivSmall(a, 5 ^ j)
       IN DivPow5(qr[1], k - j, rest \/ qr[2] # 0)
FLiteral(n, ds, k) ==
  LET nd == Len(ds)
      sh == (72 + 3 * k) \div 8              \* bytes to the left: enough bits for the quotient
      D == Digits(ds, 10, (nd \div 2) + 1)
      qr == DivPow5(TLCEval([i \in 1..sh |-> 0]) \o D, k, FALSE)
  IN IF k = 0 \/ IsZeroB(D) THEN Pack(n, 0, D, 0, FALSE)
     ELSE Pack(n, 0, qr[1], -(8 * sh) - k, qr[2])

\* decimal digits of a number of any width, six at a time
RECURSIVE BigDec(_)
RECURSIVE Six(_, _)
Six(v, k) == IF k = 0 THEN <<>> ELSE Append(Six(v \div 10, k - 1), 48 + (v % 10))
BigDec(a) == IF Small(a) THEN DecNat(ToNat(a))
             ELSE LET qr == DivSmall(a, 1000000) IN BigDec(qr[1]) \o Six(qr[2], 6)
RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(<<48>> \o s, n)
\* what printf writes: <<defined, bytes>>
FText(x) ==
  LET a == Unpack(x)
      sign == IF a.s = 1 THEN <<45>> ELSE <<>>
      th == MulB(ZExt(a.m, 10), FromNat(1000, 10))         \* thousandths * 2^-e
      k == -a.e
      q0 == ShrB(th, k)
      half == BitAt(th, k - 1) = 1
      up == half /\ (AnyBelow(th, k - 1) \/ q0[1] % 2 = 1)
      q == IF up THEN AddB(q0, One(10)) ELSE q0
      ds == PadTo(BigDec(q), 4)
      big == BigDec(ShlB(ZExt(a.m, 9 + (a.e \div 8)), a.e))
  IN IF a.k = "nan" THEN <<FALSE, <<>>>>
     ELSE IF a.k = "inf" THEN <<TRUE, sign \o <<105, 110, 102>>>>
     ELSE IF k <= 0 THEN <<TRUE, sign \o big \o <<46, 48, 48, 48>>>>
     ELSE IF k >= 80 THEN <<TRUE, sign \o <<48, 46, 48, 48, 48>>>>
     ELSE <<TRUE, sign \o SubSeq(ds, 1, Len(ds) - 3) \o <<46>> \o SubSeq(ds, Len(ds) - 2, Len(ds))>>
=============================================================================
