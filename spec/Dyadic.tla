------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact arithmetic on IEEE doubles.                                       *)
(*                                                                         *)
(* Every finite double is a dyadic rational.  It is represented by the     *)
(* tuple <<s, e, l0, l1, .., lk>>, denoting                                *)
(*        s * SUM_i  l_i * B^(e+i),         B = 2^15,  0 <= l_i < B,        *)
(* in canonical form (l0 # 0, lk # 0; zero is <<0, 0>>).  All limb         *)
(* products stay below 2^31, so TLC's 32-bit integers suffice.             *)
(* s = 7, 8, 9 code NaN, +inf, -inf (tuple <<7,0>>, <<8,0>>, <<9,0>>).     *)
(*                                                                         *)
(* The definitions below are the semantics.  Dyadic.java overrides DAdd,   *)
(* DMul, DCmp, DDot, DSumSq with BigInteger versions purely for speed;     *)
(* DyadicSelfTest.tla has TLC compare the two.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
DZero == <<0, 0>>
DNaN  == <<7, 0>>
DPInf == <<8, 0>>
DNInf == <<9, 0>>

DIsFin(a) == a[1] \in {-1, 0, 1}
DIsNaN(a) == a[1] = 7
DSgn(a)   == IF a[1] = 8 THEN 1 ELSE IF a[1] = 9 THEN -1 ELSE a[1]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ------------------------------------------------------------ limb layer
\* limb of the magnitude of a at absolute exponent x
LimbAt(a, x) == LET i == x - a[2] + 3 IN IF i >= 3 /\ i <= Len(a) THEN a[i] ELSE 0
TopExp(a)    == a[2] + Len(a) - 3

RECURSIVE StripLow(_, _)
StripLow(e, m) == IF m = <<>> THEN <<e, m>>
                  ELSE IF m[1] = 0 THEN StripLow(e + 1, Tail(m)) ELSE <<e, m>>
RECURSIVE StripHigh(_)
StripHigh(m) == IF m = <<>> THEN m
                ELSE IF m[Len(m)] = 0 THEN StripHigh(SubSeq(m, 1, Len(m) - 1)) ELSE m
Canon(s, e, m) == LET h == StripHigh(m)
                      q == StripLow(e, h)
                  IN IF h = <<>> \/ s = 0 THEN DZero ELSE <<s, q[1]>> \o q[2]

\* sum of magnitudes, low exponent lo, high exponent hi, carry c
RECURSIVE AddLimbs(_, _, _, _, _)
AddLimbs(a, b, x, hi, c) ==
  IF x > hi THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == LimbAt(a, x) + LimbAt(b, x) + c
       IN <<t % B>> \o AddLimbs(a, b, x + 1, hi, t \div B)
\* difference of magnitudes |a| - |b|, |a| >= |b|
RECURSIVE SubLimbs(_, _, _, _, _)
SubLimbs(a, b, x, hi, w) ==
  IF x > hi THEN <<>>
  ELSE LET t == LimbAt(a, x) - LimbAt(b, x) - w
       IN IF t < 0 THEN <<t + B>> \o SubLimbs(a, b, x + 1, hi, 1)
                   ELSE <<t>> \o SubLimbs(a, b, x + 1, hi, 0)
RECURSIVE CmpLimbs(_, _, _, _)
CmpLimbs(a, b, x, lo) ==
  IF x < lo THEN 0
  ELSE IF LimbAt(a, x) < LimbAt(b, x) THEN -1
  ELSE IF LimbAt(a, x) > LimbAt(b, x) THEN 1
  ELSE CmpLimbs(a, b, x - 1, lo)
CmpMag(a, b) == CmpLimbs(a, b, Max2(TopExp(a), TopExp(b)), Min2(a[2], b[2]))

FinAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
  LET lo == Min2(a[2], b[2])
      hi == Max2(TopExp(a), TopExp(b))
  IN IF a[1] = b[1] THEN Canon(a[1], lo, AddLimbs(a, b, lo, hi, 0))
     ELSE LET c == CmpMag(a, b) IN
          IF c = 0 THEN DZero
          ELSE IF c > 0 THEN Canon(a[1], lo, SubLimbs(a, b, lo, hi, 0))
          ELSE Canon(b[1], lo, SubLimbs(b, a, lo, hi, 0))

\* one limb times a magnitude, as a limb sequence
RECURSIVE MulLimb(_, _, _, _)
MulLimb(q, a, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == q * a[i] + c IN <<t % B>> \o MulLimb(q, a, i + 1, t \div B)
RECURSIVE FinMulFrom(_, _, _)
FinMulFrom(a, b, j) ==
  IF j > Len(b) THEN DZero
  ELSE FinAdd(Canon(1, a[2] + b[2] + (j - 3), MulLimb(b[j], a, 3, 0)), FinMulFrom(a, b, j + 1))
FinMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN DZero
                ELSE LET r == FinMulFrom(a, b, 3) IN [r EXCEPT ![1] = a[1] * b[1]]

\* ------------------------------------------------------- public operators
DNeg(a) == IF a[1] = 7 \/ a[1] = 0 THEN a
           ELSE IF a[1] = 8 THEN DNInf ELSE IF a[1] = 9 THEN DPInf
           ELSE [a EXCEPT ![1] = -a[1]]
DAbs(a) == IF DSgn(a) = -1 THEN DNeg(a) ELSE a

DAdd(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN DNaN
              ELSE IF DIsFin(a) /\ DIsFin(b) THEN FinAdd(a, b)
              ELSE IF DIsFin(a) THEN b ELSE IF DIsFin(b) THEN a
              ELSE IF a = b THEN a ELSE DNaN
DMul(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN DNaN
              ELSE IF DIsFin(a) /\ DIsFin(b) THEN FinMul(a, b)
              ELSE LET s == DSgn(a) * DSgn(b)
                   IN IF s = 0 THEN DNaN ELSE IF s > 0 THEN DPInf ELSE DNInf
\* -1, 0, 1; 2 when unordered (a NaN is involved)
DCmp(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN 2
              ELSE IF DIsFin(a) /\ DIsFin(b)
                   THEN LET d == FinAdd(a, DNeg(b)) IN d[1]
              ELSE IF a = b THEN 0
              ELSE IF a[1] = 8 \/ b[1] = 9 THEN 1 ELSE -1
RECURSIVE DDotFrom(_, _, _)
DDotFrom(u, v, i) == IF i > Len(u) THEN DZero
                     ELSE DAdd(DMul(u[i], v[i]), DDotFrom(u, v, i + 1))
DDot(u, v) == DDotFrom(u, v, 1)
DSumSq(v)  == DDot(v, v)

DSub(a, b) == DAdd(a, DNeg(b))
DLe(a, b)  == DCmp(a, b) \in {-1, 0}
DLt(a, b)  == DCmp(a, b) = -1
DEq(a, b)  == DCmp(a, b) = 0
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
\* the integer i, |i| < 2^30
DInt(i) == IF i = 0 THEN DZero
           ELSE LET m == IF i < 0 THEN -i ELSE i
                IN Canon(IF i < 0 THEN -1 ELSE 1, 0, <<m % B, m \div B>>)
\* 2^k
RECURSIVE Pow2Small(_)
Pow2Small(k) == IF k = 0 THEN 1 ELSE 2 * Pow2Small(k - 1)
DPow2(k) == <<1, k \div 15, Pow2Small(k % 15)>>
DOne == <<1, 0, 1>>
DMulInt(a, i) == DMul(a, DInt(i))

\* ------------------------------------------------------------- vectors
VIsFin(v)    == \A i \in 1..Len(v) : DIsFin(v[i])
VHasNaN(v)   == \E i \in 1..Len(v) : DIsNaN(v[i])
VAdd(u, v)   == [i \in 1..Len(u) |-> DAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> DSub(u[i], v[i])]
VScale(a, v) == [i \in 1..Len(v) |-> DMul(a, v[i])]
MatVec(A, v) == [i \in 1..Len(A) |-> DDot(A[i], v)]
VInBox(x, lo, hi) == \A i \in 1..Len(x) : DLe(lo[i], x[i]) /\ DLe(x[i], hi[i])
VDist2(u, v) == DSumSq(VSub(u, v))
RECURSIVE VMaxAbsFrom(_, _)
VMaxAbsFrom(v, i) == IF i > Len(v) THEN DZero ELSE DMax(DAbs(v[i]), VMaxAbsFrom(v, i + 1))
VMaxAbs(v) == VMaxAbsFrom(v, 1)
RECURSIVE VSumFrom(_, _)
VSumFrom(v, i) == IF i > Len(v) THEN DZero ELSE DAdd(v[i], VSumFrom(v, i + 1))
VSum(v) == VSumFrom(v, 1)
VSumAbs(v) == VSumFrom([i \in 1..Len(v) |-> DAbs(v[i])], 1)
=============================================================================
