------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Exact rational arithmetic of any size (TLC's own integers have 32 bits).*)
(* A natural number is a sequence of digits in base 10000, lowest first,   *)
(* without zeros at the end.  A number is                                  *)
(*     [neg, n, d, m]     -n/d or n/d                                      *)
(* where 10^m bounds it and everything it was computed from, which is what *)
(* a computation with floating point numbers is precise in proportion to.  *)
(* d = <<>>: unknown.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000
RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a)-1)) ELSE a
NLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NMax(x, y) == IF x > y THEN x ELSE y
NAdd(a, b) ==
  LET L == NMax(Len(a), Len(b))
      RECURSIVE go(_, _, _)
      go(i, carry, acc) ==
        IF i > L THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
        ELSE LET s == NLimb(a, i) + NLimb(b, i) + carry IN go(i+1, s \div Base, Append(acc, s % Base))
  IN go(1, 0, <<>>)
(* a - b, for a >= b *)
NSub(a, b) ==
  LET RECURSIVE go(_, _, _)
      go(i, borrow, acc) ==
        IF i > Len(a) THEN acc
        ELSE LET s == a[i] - NLimb(b, i) - borrow IN
             IF s < 0 THEN go(i+1, 1, Append(acc, s + Base)) ELSE go(i+1, 0, Append(acc, s))
  IN NTrim(go(1, 0, <<>>))
NLess(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET RECURSIVE go(_)
           go(i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE go(i-1)
       IN go(Len(a))
NMulLimb(a, x) ==
  LET RECURSIVE go(_, _, _)
      go(i, carry, acc) ==
        IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
        ELSE LET s == a[i] * x + carry IN go(i+1, s \div Base, Append(acc, s % Base))
  IN IF x = 0 THEN <<>> ELSE go(1, 0, <<>>)
NShift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
NMul(a, b) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(b) THEN acc ELSE go(i+1, NAdd(acc, NShift(NMulLimb(a, b[i]), i-1)))
  IN IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a ELSE go(1, <<>>)
NPow10(k) == NShift(<< CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000 >>, k \div 4)
(* of the digits "0".."9", highest first *)
NOf(s) ==
  LET L == Len(s)
      dig(i) == IF i >= 1 THEN s[i] - 48 ELSE 0
  IN NTrim([k \in 1..((L + 3) \div 4) |->
       LET i == L - 4*(k-1) IN dig(i) + 10*dig(i-1) + 100*dig(i-2) + 1000*dig(i-3)])
(* the number of decimal digits *)
NDigits(a) ==
  IF a = <<>> THEN 0
  ELSE LET t == a[Len(a)] IN 4*(Len(a)-1) + (IF t < 10 THEN 1 ELSE IF t < 100 THEN 2 ELSE IF t < 1000 THEN 3 ELSE 4)

Least == -80
Most  == 160
Unknown == [neg |-> FALSE, n |-> <<>>, d |-> <<>>, m |-> 0]
Known(x) == x.d # <<>>
IsZero(x) == Known(x) /\ x.n = <<>>
(* sign, digits and power of ten *)
FOf(neg, digits, exp) ==
  LET n == NOf(digits) IN
  IF exp > Most \/ exp < -Most \/ Len(digits) > Most THEN Unknown
  ELSE IF n = <<>> THEN [neg |-> FALSE, n |-> n, d |-> <<1>>, m |-> Least]
  ELSE [neg |-> neg, n |-> IF exp > 0 THEN NMul(n, NPow10(exp)) ELSE n,
        d |-> IF exp < 0 THEN NPow10(-exp) ELSE <<1>>, m |-> NDigits(n) + exp]
(* Too large or too precise to go on with. *)
Sized(x) == IF Len(x.n) > Most \div 2 \/ Len(x.d) > Most \div 2 \/ x.m > Most \/ x.m < -Most THEN Unknown ELSE x
FNeg(x) == [x EXCEPT !.neg = IF x.n = <<>> THEN FALSE ELSE ~@]
FAdd(x, y) ==
  IF ~Known(x) \/ ~Known(y) THEN Unknown
  ELSE LET same == x.d = y.d
           p == IF same THEN x.n ELSE NMul(x.n, y.d)
           q == IF same THEN y.n ELSE NMul(y.n, x.d)
           d == IF same THEN x.d ELSE NMul(x.d, y.d)
           m == NMax(x.m, y.m) + 1
           less == NLess(p, q)
           n == IF x.neg = y.neg THEN NAdd(p, q) ELSE IF less THEN NSub(q, p) ELSE NSub(p, q)
       IN Sized([neg |-> n # <<>> /\ (IF x.neg = y.neg THEN x.neg ELSE IF less THEN y.neg ELSE x.neg),
                 n |-> n, d |-> d, m |-> m])
FMul(x, y) ==
  IF ~Known(x) \/ ~Known(y) THEN Unknown
  ELSE LET n == NMul(x.n, y.n) IN
       Sized([neg |-> n # <<>> /\ x.neg # y.neg, n |-> n, d |-> NMul(x.d, y.d), m |-> NMax(x.m + y.m, Least)])
FInv(x) ==
  IF ~Known(x) \/ IsZero(x) THEN Unknown
  ELSE LET order == NDigits(x.n) - NDigits(x.d)      \* 10^(order-1) < |x| < 10^(order+1)
       IN Sized([neg |-> x.neg, n |-> x.d, d |-> x.n, m |-> 1 - order + (x.m - order)])
FSub(x, y) == FAdd(x, FNeg(y))
(* Is x equal to f, up to 9 significant digits of what f was computed from? *)
Precision == 9
FNear(x, f) ==
  IF ~Known(f) THEN TRUE ELSE IF ~Known(x) THEN FALSE
  ELSE LET e == FSub(x, f)
           k == f.m - Precision
       IN Known(e) =>
            IF k >= 0 THEN ~NLess(NMul(e.d, NPow10(k)), e.n) ELSE ~NLess(e.d, NMul(e.n, NPow10(-k)))
(* As a sequence of integers, and back. *)
FEnc(x) == <<IF x.neg THEN 1 ELSE 0, x.m, Len(x.n)>> \o x.n \o x.d
FDec(s) == [neg |-> s[1] = 1, m |-> s[2], n |-> SubSeq(s, 4, 3 + s[3]), d |-> SubSeq(s, 4 + s[3], Len(s))]
=============================================================================
