------------------------------- MODULE BigRat -------------------------------
(* Exact rational arithmetic.  A rational number is represented by its        *)
(* canonical numeral: the string "n" or "n/d" with d > 1 in lowest terms (a   *)
(* TLC integer is accepted as an argument too).  Every IEEE double is such a  *)
(* rational, so the values the code computes enter the specification without  *)
(* any rounding.  Any other string ("nan", "inf") is "not a number":          *)
(* arithmetic propagates "nan" and every comparison with it is FALSE, so the  *)
(* operators are total.                                                       *)
(* TLC evaluates the scalar operators with the module override BigRat.java,   *)
(* as it does for its own standard modules; MC_BigRat.tla compares the        *)
(* overrides with TLC's integers on a complete finite range.                  *)
EXTENDS Integers, Sequences
LOCAL Denoting(x) == CHOOSE s \in STRING : s = x   \* placeholder body: see override

RNum(a)      == Denoting(a)     \* canonical numeral of a
RIsNum(a)    == Denoting(a)     \* a is a rational (not "nan"/"inf")
RIsInt(a)    == Denoting(a)
RAdd(a, b)   == Denoting(a)     \* a + b
RSub(a, b)   == Denoting(a)     \* a - b
RMul(a, b)   == Denoting(a)     \* a * b
RDiv(a, b)   == Denoting(a)     \* a / b, "nan" if b = 0
RNeg(a)      == Denoting(a)
RAbs(a)      == Denoting(a)
RSgn(a)      == Denoting(a)     \* -1, 0 or 1 (a TLC integer)
REq(a, b)    == Denoting(a)
RLt(a, b)    == Denoting(a)
RLe(a, b)    == Denoting(a)
RMin(a, b)   == Denoting(a)
RMax(a, b)   == Denoting(a)
RFloor(a)    == Denoting(a)
RToInt(a, d) == Denoting(a)     \* TLC integer equal to a, or d
RRound(a, k) == Denoting(a)     \* greatest multiple of 2^-k that is <= a
RSqrt(a, k)  == Denoting(a)     \* greatest multiple of 2^-k whose square is <= a
RPi(k)       == Denoting(k)     \* pi, cos, sin, exp to within 2^-k
RCos(a, k)   == Denoting(a)
RSin(a, k)   == Denoting(a)
RExp(a, k)   == Denoting(a)
RAtan2(y, x, k) == Denoting(<<y, x>>)   \* the angle of (x, y) in (-pi, pi]
\* |a - b| <= atol + rtol * |b|
RNear(a, b, atol, rtol) == RLe(RAbs(RSub(a, b)), RAdd(atol, RMul(rtol, RAbs(b))))

\* ---- sequences of rationals (overridden for speed only; these bodies are the definitions)
RSum(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "0" ELSE RAdd(f[i-1], s[i]) IN f[Len(s)]
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
RVAdd(s, t) == [i \in 1..Len(s) |-> RAdd(s[i], t[i])]
RVSub(s, t) == [i \in 1..Len(s) |-> RSub(s[i], t[i])]
RVScale(c, s) == [i \in 1..Len(s) |-> RMul(c, s[i])]
RVRound(s, k) == [i \in 1..Len(s) |-> RRound(s[i], k)]
RCross(s, t) == << RSub(RMul(s[2], t[3]), RMul(s[3], t[2])),
                   RSub(RMul(s[3], t[1]), RMul(s[1], t[3])),
                   RSub(RMul(s[1], t[2]), RMul(s[2], t[1])) >>
RDist2(s, t) == RDot(RVSub(s, t), RVSub(s, t))
RVNear(s, t, atol, rtol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RNear(s[i], t[i], atol, rtol)
\* product of the sparse matrix with entries trip = << <<i, j, v>>, ... >> (0-based, n rows) with x
RSpMV(trip, n, x) ==
    [r \in 1..n |-> RSum([k \in 1..Len(trip) |->
        IF trip[k][1] = r - 1 THEN RMul(trip[k][3], x[trip[k][2] + 1]) ELSE "0"])]
=============================================================================
