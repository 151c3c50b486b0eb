--------------------------- MODULE DecimalCheck ----------------------------
(* The laws of Decimal's arithmetic, on every pair of a set of awkward      *)
(* numbers, and that it agrees with TLC's integers where those suffice.     *)
EXTENDS Decimal, TLC
CONSTANT Wide

Strings == { <<48>>, <<49>>, <<57>>, <<49,48>>, <<57,57,57,57>>, <<49,48,48,48,48>>, <<48,48,49,50>>,
             <<57,57,57,57,57,57,57,57>>, <<50,49,52,55,52,56,51,54,52,55>>,
             <<49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57>>,
             <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,49>> }
Smalls == {0, 1, 2, 9, 10, 99, 100, 9999, 10000, 10001, 12345, 46340}
RECURSIVE OfNat(_)
OfNat(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o OfNat(k \div Base)

Numbers == { FOf(neg, s, e) : neg \in BOOLEAN, s \in Strings, e \in IF Wide THEN {-9, -4, -1, 0, 1, 3, 8} ELSE {-4, 3} }

VARIABLES x, y
Init == x \in Numbers /\ y = x
Next == x = y /\ y' \in Numbers /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>

Eq(a, b) == /\ Known(a) /\ Known(b)
            /\ a.neg = b.neg /\ NMul(a.n, b.d) = NMul(b.n, a.d)
One == FOf(FALSE, <<49>>, 0)
Canonical(a) == /\ a = NTrim(a) /\ \A i \in 1..Len(a) : a[i] \in 0..(Base-1)

Naturals ==
  \A i, j \in Smalls :
     /\ NAdd(OfNat(i), OfNat(j)) = OfNat(i + j)
     /\ NMul(OfNat(i), OfNat(j)) = OfNat(i * j)
     /\ i >= j => NSub(OfNat(i), OfNat(j)) = OfNat(i - j)
     /\ NLess(OfNat(i), OfNat(j)) <=> i < j
ASSUME Naturals

Shape == \A a \in {x, y, FAdd(x, y), FMul(x, y), FSub(x, y)} :
           /\ Known(a) /\ Canonical(a.n) /\ Canonical(a.d)
           /\ (a.n = <<>> => ~a.neg)
           \* 10^m bounds it
           /\ a.n # <<>> => NDigits(a.n) - NDigits(a.d) <= a.m + 1
Laws ==
  /\ Eq(FAdd(x, y), FAdd(y, x))
  /\ Eq(FMul(x, y), FMul(y, x))
  /\ Eq(FSub(FAdd(x, y), y), x)
  /\ Eq(FMul(FAdd(x, y), y), FAdd(FMul(x, y), FMul(y, y)))
  /\ Eq(FNeg(FNeg(x)), x)
  /\ IsZero(FSub(x, x))
  /\ ~IsZero(y) => /\ Eq(FMul(y, FInv(y)), One)
                   /\ Eq(FMul(FMul(x, y), FInv(y)), x)
  /\ FDec(FEnc(x)) = x
(* Near means near: itself, and not twice itself; a difference in the tenth digit is and in the seventh is not. *)
Tenth   == FOf(FALSE, <<49>>, -12)
Seventh == FOf(FALSE, <<49>>, -6)
Nearness ==
  /\ FNear(x, x)
  /\ FNear(FAdd(x, FMul(x, Tenth)), x)
  /\ ~IsZero(x) => /\ ~FNear(FAdd(x, FMul(x, Seventh)), x)
                   /\ ~FNear(FAdd(x, x), x)
                   /\ ~FNear(FNeg(x), x)
=============================================================================
