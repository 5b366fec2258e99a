-------------------------------- MODULE Big --------------------------------
(* Unbounded naturals as little-endian sequences of base-10^4 limbs without *)
(* a leading (most significant) zero limb; <<>> is zero.  TLC's own integers *)
(* are 32 bits wide, token amounts are 128 and gas arithmetic is 256 bits.   *)
EXTENDS Integers, Sequences

BZero == <<>>
BIsZero(a) == Len(a) = 0

RECURSIVE BTrim(_)
BTrim(a) == IF Len(a) = 0 \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))

BAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BLtAt(_, _, _)
BLtAt(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLtAt(a, b, i - 1)
BLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLtAt(a, b, Len(a))
BLe(a, b) == ~BLt(b, a)

RECURSIVE BAddC(_, _, _, _, _)
BAddC(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == BAt(a, i) + BAt(b, i) + c
       IN BAddC(a, b, i + 1, s \div 10000, Append(acc, s % 10000))
BAdd(a, b) == IF Len(a) = 0 THEN b ELSE IF Len(b) = 0 THEN a ELSE BAddC(a, b, 1, 0, <<>>)

RECURSIVE BSubC(_, _, _, _, _)
BSubC(a, b, i, c, acc) ==
  IF i > Len(a) THEN BTrim(acc)
  ELSE LET s == a[i] - BAt(b, i) - c
       IN IF s < 0 THEN BSubC(a, b, i + 1, 1, Append(acc, s + 10000))
                   ELSE BSubC(a, b, i + 1, 0, Append(acc, s))
(* a - b, for b <= a *)
BSub(a, b) == IF Len(b) = 0 THEN a ELSE BSubC(a, b, 1, 0, <<>>)

RECURSIVE BMulSmallC(_, _, _, _, _)
BMulSmallC(a, m, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[i] * m + c
       IN BMulSmallC(a, m, i + 1, s \div 10000, Append(acc, s % 10000))
BMulSmall(a, m) == IF m = 0 \/ Len(a) = 0 THEN <<>> ELSE BMulSmallC(a, m, 1, 0, <<>>)

RECURSIVE BMulC(_, _, _)
BMulC(a, b, j) == IF j > Len(b) THEN <<>>
                  ELSE LET rest == BMulC(a, b, j + 1)
                       IN BAdd(BMulSmall(a, b[j]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
BMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>> ELSE BMulC(a, b, 1)

RECURSIVE BDivSmallC(_, _, _, _, _)
BDivSmallC(a, m, i, r, acc) ==
  IF i = 0 THEN BTrim(acc)
  ELSE LET s == r * 10000 + a[i]
       IN BDivSmallC(a, m, i - 1, s % m, <<s \div m>> \o acc)
(* floor(a / m) for a native 0 < m <= 10^4 *)
BDivSmall(a, m) == BDivSmallC(a, m, Len(a), 0, <<>>)

(* floor(a / 10^10): the scale of the gas oracles' exchange rate *)
BDivScale(a) == IF Len(a) < 3 THEN <<>> ELSE BDivSmall(SubSeq(a, 3, Len(a)), 100)

(* 2^128 - 1 and 2^256 - 1 *)
BMax128 == <<1455, 6821, 4317, 4607, 6337, 4634, 938, 6692, 2823, 340>>
BMax256 == <<9935, 2963, 9131, 4007, 5758, 394, 564, 6564, 9846, 3269, 785,
             6879, 5008, 7098, 4235, 6195, 3731, 892, 5792, 11>>
Fits128(a) == BLe(a, BMax128)
Fits256(a) == BLe(a, BMax256)
=============================================================================
