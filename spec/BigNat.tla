------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of arbitrary size.  TLC integers have 32 bits, token, mana *)
(* and native token amounts have up to 256: a number is the little-endian     *)
(* sequence of its base 10^4 digits without leading zeros, <<>> is zero.      *)
EXTENDS Integers, Sequences

LB == 10000            \* base of a limb

Zero == <<>>

RECURSIVE Trim(_)
Trim(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o FromInt(n \div LB)

One == <<1>>

Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Dg(a, i) + Dg(b, i) + c
       IN <<s % LB>> \o AddFrom(a, b, i + 1, s \div LB)
Add(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE AddFrom(a, b, 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] > b[i] THEN 1 ELSE -1) ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1) ELSE CmpFrom(a, b, Len(a))
Lt(a, b)  == Cmp(a, b) = -1
Leq(a, b) == Cmp(a, b) # 1
Eq(a, b)  == a = b
MinN(a, b) == IF Leq(a, b) THEN a ELSE b

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dg(b, i) - c
       IN IF s < 0 THEN <<s + LB>> \o SubFrom(a, b, i + 1, 1) ELSE <<s>> \o SubFrom(a, b, i + 1, 0)
\* a - b, defined for a >= b only
Sub(a, b) == IF b = <<>> THEN a ELSE Trim(SubFrom(a, b, 1, 0))
\* saturating subtraction
Monus(a, b) == IF Lt(a, b) THEN Zero ELSE Sub(a, b)

\* a * n for a small integer 0 <= n < 200000
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, n, i, c) ==
  IF i > Len(a)
  THEN FromInt(c)
  ELSE LET s == a[i] * n + c
       IN <<s % LB>> \o MulFrom(a, n, i + 1, s \div LB)
MulSmall(a, n) == IF n = 0 THEN <<>> ELSE MulFrom(a, n, 1, 0)

RECURSIVE MulAcc(_, _, _)
MulAcc(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE Add(MulSmall(a, b[i]), LET r == MulAcc(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
Mul(a, b) == Trim(IF Len(a) < Len(b) THEN MulAcc(b, a, 1) ELSE MulAcc(a, b, 1))

\* floor(a / n) for a small integer 1 <= n <= 200000
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, n, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET s == r * LB + a[i]
       IN DivFrom(a, n, i - 1, s % n) \o <<s \div n>>
DivSmall(a, n) == Trim(DivFrom(a, n, Len(a), 0))

RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, n, i, r) == IF i = 0 THEN r ELSE ModFrom(a, n, i - 1, (r * LB + a[i]) % n)
ModSmall(a, n) == ModFrom(a, n, Len(a), 0)

Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2Int(n) == Pow2Tab[n + 1]      \* n <= 16

\* floor(a / 2^n), a * 2^n
RECURSIVE ShiftR(_, _)
ShiftR(a, n) == IF n <= 16 THEN DivSmall(a, Pow2Int(n)) ELSE ShiftR(DivSmall(a, 65536), n - 16)
RECURSIVE ShiftL(_, _)
ShiftL(a, n) == IF n <= 16 THEN MulSmall(a, Pow2Int(n)) ELSE ShiftL(MulSmall(a, 65536), n - 16)
Pow2(n) == ShiftL(One, n)

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN <<>> ELSE Add(s[i], SumSeq(s, i + 1))
Sum(s) == SumSeq(s, 1)

\* value as a TLC integer, for numbers known to be below 2^31
RECURSIVE ToIntFrom(_, _)
ToIntFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + LB * ToIntFrom(a, i + 1)
ToInt(a) == ToIntFrom(a, 1)

\* written out, so that they are not computed over and over
U63  == <<5808, 5477, 368, 3372, 922>>
U128 == <<1456, 6821, 4317, 4607, 6337, 4634, 938, 6692, 2823, 340>>
U255 == <<9968, 6481, 9565, 2003, 2879, 197, 282, 3282, 9923, 6634, 5392, 3439, 2504, 8549, 7117, 8097, 1865, 446, 7896, 5>>
MaxU64  == <<1615, 955, 737, 6744, 1844>>
MaxU256 == <<9935, 2963, 9131, 4007, 5758, 394, 564, 6564, 9846, 3269, 785, 6879, 5008, 7098, 4235, 6195, 3731, 892, 5792, 11>>
ASSUME U63 = Pow2(63) /\ U128 = Pow2(128) /\ U255 = Pow2(255) /\ MaxU64 = Sub(Pow2(64), One) /\ MaxU256 = Sub(Pow2(256), One)
=============================================================================
