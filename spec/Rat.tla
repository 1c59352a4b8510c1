-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for the portfolyo specification, total on the  *)
(* 32-bit integers of TLC.  A number is <<n, d>>: d > 0, in lowest terms.   *)
(* d = 0 marks the values that are not finite numbers:                      *)
(*   NaN  undefined (0/0)          INF  division of a non-zero by zero      *)
(*   UNK  "not computable here": the exact value does not fit 32 bits.      *)
(* UNK is propagated and accepted by every comparison; the harness counts   *)
(* how often that happens, so that it cannot hide a vacuous check.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

MAXI == 2147483647
NaN  == <<0, 0>>
INF  == <<1, 0>>
UNK  == <<2, 0>>
Zero == <<0, 1>>
One  == <<1, 1>>

RInt(i)  == <<i, 1>>
RAbsI(i) == IF i < 0 THEN 0 - i ELSE i

IsFin(x) == x[2] # 0
IsNaN(x) == x = NaN
IsUnk(x) == x = UNK
IsZero(x) == x[2] # 0 /\ x[1] = 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* |a * b| fits
MulFits(a, b) == a = 0 \/ b = 0 \/ RAbsI(a) <= MAXI \div RAbsI(b)
AddFits(a, b) == IF b >= 0 THEN a <= MAXI - b ELSE a >= (0 - MAXI) - b

Norm(n, d) ==   \* d > 0
    IF d = 1 THEN <<n, 1>>
    ELSE LET g == Gcd(RAbsI(n), d) IN IF g = 1 THEN <<n, d>> ELSE <<n \div g, d \div g>>

Q(n, d) == IF d = 0 THEN (IF n = 0 THEN NaN ELSE INF)
           ELSE IF d < 0 THEN Norm(0 - n, 0 - d) ELSE Norm(n, d)

RNeg(x) == IF x[2] = 0 THEN x ELSE <<0 - x[1], x[2]>>

RMul(x, y) ==
    IF x[2] # 0 /\ y[2] # 0 THEN
        LET g1 == IF y[2] = 1 THEN 1 ELSE Gcd(RAbsI(x[1]), y[2])
            g2 == IF x[2] = 1 THEN 1 ELSE Gcd(RAbsI(y[1]), x[2])
            a == x[1] \div g1  b == y[1] \div g2
            c == x[2] \div g2  d == y[2] \div g1
        IN IF MulFits(a, b) /\ MulFits(c, d) THEN <<a * b, c * d>> ELSE UNK
    ELSE IF IsUnk(x) \/ IsUnk(y) THEN UNK
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsZero(x) \/ IsZero(y) THEN NaN     \* INF * 0
    ELSE INF

RAdd(x, y) ==
    IF x[2] = 1 /\ y[2] = 1 THEN
        IF AddFits(x[1], y[1]) THEN <<x[1] + y[1], 1>> ELSE UNK
    ELSE IF x[2] # 0 /\ y[2] # 0 THEN
        LET g == Gcd(x[2], y[2])
            dy == y[2] \div g  dx == x[2] \div g
        IN IF MulFits(x[1], dy) /\ MulFits(y[1], dx) /\ MulFits(x[2], dy)
           THEN LET n1 == x[1] * dy  n2 == y[1] * dx
                IN IF AddFits(n1, n2) THEN Norm(n1 + n2, x[2] * dy) ELSE UNK
           ELSE UNK
    ELSE IF IsUnk(x) \/ IsUnk(y) THEN UNK
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF x = INF /\ y = INF THEN UNK         \* signs of infinities are not modelled
    ELSE INF

RSub(x, y) == RAdd(x, RNeg(y))

RInv(x) == IF IsUnk(x) \/ IsNaN(x) THEN x
           ELSE IF x = INF THEN Zero
           ELSE IF x[1] = 0 THEN INF
           ELSE IF x[1] < 0 THEN <<0 - x[2], 0 - x[1]>> ELSE <<x[2], x[1]>>

RDiv(x, y) ==
    IF y[2] # 0 /\ y[1] = 0 THEN
        (IF IsUnk(x) THEN UNK ELSE IF IsNaN(x) \/ IsZero(x) THEN NaN ELSE INF)
    ELSE IF x = INF /\ y = INF THEN NaN
    ELSE RMul(x, RInv(y))

\* Sum of the values f[1] .. f[n] of a sequence, by halving (bounded recursion depth).
RECURSIVE RSumRange(_, _, _)
RSumRange(f, lo, hi) ==
    IF lo > hi THEN Zero
    ELSE IF lo = hi THEN f[lo]
    ELSE IF hi = lo + 1 THEN RAdd(f[lo], f[hi])
    ELSE LET m == (lo + hi) \div 2 IN RAdd(RSumRange(f, lo, m), RSumRange(f, m + 1, hi))
RSum(f) == RSumRange(f, 1, Len(f))

\* Order, for finite values (UNK-safe callers only).
RLeq(x, y) == LET d == RSub(x, y) IN d[2] = 0 \/ d[1] <= 0
RSign(x) == IF x[2] = 0 THEN 0 ELSE IF x[1] < 0 THEN -1 ELSE IF x[1] = 0 THEN 0 ELSE 1

(***************************************************************************)
(* Recorded floating-point numbers.  The recorder writes v as <<ip, us>>    *)
(* with v ~ ip + us/10^6, ip = floor(v), 0 <= us < 10^6; or <<0,-1>> (NaN), *)
(* <<0,-2>> (infinite), <<0,-3>> (out of the recorder's range).             *)
(***************************************************************************)
RECURSIVE FracDigits(_, _, _)
FracDigits(rem, d, k) ==   \* floor(rem/d * 10^k), 0 <= rem < d
    IF k = 0 THEN 0
    ELSE LET t == rem * 10 IN (t \div d) * (10^(k-1)) + FracDigits(t % d, d, k - 1)

RECURSIVE Near(_, _)
Near(x, f) ==
    IF IsUnk(x) \/ f[2] = -3 THEN TRUE
    ELSE IF f[2] = -4 THEN Near(x, <<0, 0>>)
    ELSE IF IsNaN(x) THEN f[2] = -1
    ELSE IF x = INF THEN f[2] = -2
    ELSE IF f[2] < 0 THEN FALSE
    ELSE LET ip == x[1] \div x[2]
             rem == x[1] % x[2]
         IN IF x[2] > 200000000 THEN RAbsI(ip - f[1]) <= 1
            ELSE LET us == FracDigits(rem, x[2], 6)
                     di == ip - f[1]
                 IN RAbsI(di) <= 1 /\ RAbsI(di * 1000000 + us - f[2]) <= 4 + RAbsI(ip) \div 1000

SeqNear(xs, fs) == Len(xs) = Len(fs) /\ \A i \in 1..Len(xs) : Near(xs[i], fs[i])
=============================================================================
