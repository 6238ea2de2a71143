-------------------------------- MODULE Num --------------------------------
(* Arithmetic used by the whole specification.                              *)
(*                                                                          *)
(*  - Fixed point: an integer counts units of 1/65536 ("fx").  Everything   *)
(*    that is a real number in the implementation travels as fx in the      *)
(*    recorded traces; three integers are reserved for NaN and the          *)
(*    infinities, and every other magnitude is clamped to MaxFx.            *)
(*  - Floating point: a pair <<m, e>> stands for m * 2^e with               *)
(*    2^14 <= |m| <= 2^15 (or <<0, 0>>).  About 3e-5 relative precision     *)
(*    within TLC's 32-bit integers, any range.                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

FX    == 65536
NaN   == -2000000001
PInf  == 2000000000
NInf  == -2000000000
MaxFx == 1900000000

IsNum(x) == x >= -MaxFx /\ x <= MaxFx
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(x, y) == IF x < y THEN y ELSE x
MinOf(x, y) == IF x < y THEN x ELSE y

\* |a - b| <= t, without overflow; NaN is near NaN only
Near(a, b, t) ==
    IF a = b THEN TRUE
    ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN FALSE
    ELSE IF (a < 0) # (b < 0)
         THEN Abs(a) <= t /\ Abs(b) <= t /\ Abs(a) + Abs(b) <= t
         ELSE Abs(a - b) <= t

NearSeq(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
NearMat(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], t)
NumSeq(a) == \A i \in 1..Len(a) : IsNum(a[i])
Within(a, b) == \A i \in 1..Len(a) : IsNum(a[i]) /\ Abs(a[i]) <= b

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
\* number of positions of s that satisfy T
CountIf(s, T(_)) == FoldLeft(LAMBDA acc, x : IF T(x) THEN acc + 1 ELSE acc, 0, s)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)

-----------------------------------------------------------------------------
(* Fixed point *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
          32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608,
          16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
TwoTo(k) == Pow2[k + 1]                                     \* 0 <= k <= 30

\* a * b for non-negative a, b below 2^22 (that is, 64.0)
MulPos(a, b) ==
    LET d0 == a % 256  d1 == (a \div 256) % 256  d2 == a \div 65536
    IN  ((((d0 * b + 128) \div 256) + d1 * b) + 128) \div 256 + d2 * b
FxMul(a, b) == LET p == MulPos(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN p ELSE -p
FxOf(n) == n * FX

-----------------------------------------------------------------------------
(* Floating point *)
BitLen(m) ==   \* m > 0
    IF m < 32768
    THEN IF m < 256
         THEN IF m < 16 THEN (IF m < 4 THEN (IF m < 2 THEN 1 ELSE 2) ELSE (IF m < 8 THEN 3 ELSE 4))
                        ELSE (IF m < 64 THEN (IF m < 32 THEN 5 ELSE 6) ELSE (IF m < 128 THEN 7 ELSE 8))
         ELSE IF m < 4096 THEN (IF m < 1024 THEN (IF m < 512 THEN 9 ELSE 10) ELSE (IF m < 2048 THEN 11 ELSE 12))
                          ELSE (IF m < 8192 THEN 13 ELSE IF m < 16384 THEN 14 ELSE 15)
    ELSE IF m < 8388608
         THEN IF m < 524288 THEN (IF m < 131072 THEN (IF m < 65536 THEN 16 ELSE 17) ELSE (IF m < 262144 THEN 18 ELSE 19))
                            ELSE (IF m < 2097152 THEN (IF m < 1048576 THEN 20 ELSE 21) ELSE (IF m < 4194304 THEN 22 ELSE 23))
         ELSE IF m < 134217728 THEN (IF m < 33554432 THEN (IF m < 16777216 THEN 24 ELSE 25) ELSE (IF m < 67108864 THEN 26 ELSE 27))
                               ELSE (IF m < 536870912 THEN (IF m < 268435456 THEN 28 ELSE 29) ELSE (IF m < 1073741824 THEN 30 ELSE 31))

FZero == <<0, 0>>
Norm(m, e) ==
    IF m = 0 THEN FZero
    ELSE LET a == Abs(m)
             k == BitLen(a) - 15
             r == IF k > 0 THEN (a \div TwoTo(k - 1) + 1) \div 2 ELSE a * TwoTo(-k)
         IN  <<IF m < 0 THEN -r ELSE r, e + k>>
FInt(n) == Norm(n, 0)
FFx(a)  == Norm(a, -16)
FOne == <<16384, -14>>
FNeg(x) == <<-x[1], x[2]>>
FAbs(x) == <<Abs(x[1]), x[2]>>
FMul(x, y) == Norm(x[1] * y[1], x[2] + y[2])
FDiv(x, y) ==                                                 \* y # 0
    LET h == (Abs(x[1]) * 32768) \div Abs(y[1])
    IN  Norm(IF (x[1] < 0) = (y[1] < 0) THEN h ELSE -h, x[2] - y[2] - 15)
FAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[2] >= y[2]
         THEN (IF x[2] - y[2] > 15 THEN x ELSE Norm(x[1] * TwoTo(x[2] - y[2]) + y[1], y[2]))
         ELSE (IF y[2] - x[2] > 15 THEN y ELSE Norm(y[1] * TwoTo(y[2] - x[2]) + x[1], x[2]))
FSub(x, y) == FAdd(x, FNeg(y))
FPos(x) == x[1] > 0
FLess(x, y) == FSub(x, y)[1] < 0
FSum(s) == FoldLeft(LAMBDA acc, x : FAdd(acc, x), FZero, s)
FProd(s) == FoldLeft(LAMBDA acc, x : FMul(acc, x), FOne, s)
\* rounded to fixed point, clamped
ToFx(x) ==
    LET k == x[2] + 16
    IN  IF x[1] = 0 \/ k < -16 THEN 0
        ELSE IF k >= 0
             THEN (IF k > 15 THEN (IF x[1] > 0 THEN MaxFx ELSE -MaxFx) ELSE x[1] * TwoTo(k))
             ELSE (IF x[1] > 0 THEN (x[1] \div TwoTo(-k - 1) + 1) \div 2
                               ELSE -((Abs(x[1]) \div TwoTo(-k - 1) + 1) \div 2))

\* 2^(k/32) in units of 2^-14
Exp2Tab == <<16384,16743,17109,17484,17867,18258,18658,19066,19484,19911,20347,20792,21247,21713,22188,22674,
             23170,23678,24196,24726,25268,25821,26386,26964,27554,28158,28774,29405,30048,30706,31379,32066>>
\* 2^y for fixed point y
Exp2(y) ==
    LET n == y \div 65536
        f == y % 65536
        k == f \div 2048
        u == ((f % 2048) * 22713) \div 32768                  \* ln 2 * remainder, fx
        v == 65536 + u + ((u * u) \div 131072)
    IN  Norm(Exp2Tab[k + 1] * ((v + 2) \div 4), n - 28)
\* e^x for fixed point x (clamped to +-60)
FExp(x) == Exp2(FxMul(IF x > 3932160 THEN 3932160 ELSE IF x < -3932160 THEN -3932160 ELSE x, 94548))
\* 1 / (1 + e^-x) for fixed point x
Logistic(x) == IF x >= 0 THEN FDiv(FOne, FAdd(FOne, FExp(-x)))
                         ELSE LET t == FExp(x) IN FDiv(t, FAdd(FOne, t))

\* ln(c/32), c = 32..64, fx
LnTab == <<0,2017,3973,5873,7719,9514,11262,12965,14624,16242,17821,19364,20870,22343,23783,25193,
           26573,27924,29248,30546,31818,33067,34292,35494,36675,37835,38975,40096,41197,42280,43346,44394,45426>>
\* natural logarithm of a positive float, fx
FLn(x) ==
    LET m == x[1]
        k == (m + 256) \div 512                               \* nearest c/32 * 2^14, 32..64
        t == ((m - k * 512) * 128) \div (k)                   \* (m/c - 1), fx
        s == t - ((t * t) \div 131072) + (((t * t) \div 65536) * t) \div 196608
    IN  LnTab[k - 31] + s + ((x[2] + 14) * 45426) + ((x[2] + 14) \div 11)
FSqrt(x) == IF x[1] <= 0 THEN FZero
            ELSE LET y == FLn(x) \div 2 IN IF Abs(y) > 3000000 THEN FZero ELSE FExp(y)

\* Standard normal density and distribution function (Abramowitz-Stegun 26.2.17)
NormalPdf(x) == FMul(FFx(26145), FExp(-(FxMul(MinOf(Abs(x), 650000), MinOf(Abs(x), 650000)) \div 2)))
NormalCdf(x) ==
    LET a == MinOf(Abs(x), 650000)
        t == FDiv(FOne, FAdd(FOne, FMul(<<30357, -17>>, FFx(a))))
        poly == FMul(t, FAdd(FFx(20931), FMul(t, FAdd(FFx(-23368), FMul(t, FAdd(FFx(116750),
                     FMul(t, FAdd(FFx(-119359), FMul(t, FFx(87181))))))))))
        tail == FMul(NormalPdf(a), poly)
    IN  IF x >= 0 THEN FSub(FOne, tail) ELSE tail
=============================================================================
