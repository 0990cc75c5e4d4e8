------------------------------ MODULE MC_BigRat ------------------------------
(* Self-test of the arithmetic override: on all pairs of small fractions the  *)
(* string operators agree with integer cross-multiplication done by TLC.      *)
EXTENDS BigRat, TLC, FiniteSets
CONSTANT N, D
VARIABLES a, b
Fr == {<<n, d>> : n \in (-N)..N, d \in 1..D}
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Abs(x) == IF x < 0 THEN -x ELSE x
\* canonical numeral of n/d, d # 0
Num(n0, d0) == LET n == IF d0 < 0 THEN -n0 ELSE n0
                   d == Abs(d0)
                   g == Gcd(Abs(n), d)
               IN IF d \div g = 1 THEN ToString(n \div g) ELSE ToString(n \div g) \o "/" \o ToString(d \div g)
S(x) == Num(x[1], x[2])
Init == a \in Fr /\ b \in Fr
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Cross == a[1] * b[2] - b[1] * a[2]
FloorDiv(n, d) == n \div d
ArithOK ==
    /\ RAdd(S(a), S(b)) = Num(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    /\ RSub(S(a), S(b)) = Num(Cross, a[2] * b[2])
    /\ RMul(S(a), S(b)) = Num(a[1] * b[1], a[2] * b[2])
    /\ RDiv(S(a), S(b)) = IF b[1] = 0 THEN "nan" ELSE Num(a[1] * b[2], a[2] * b[1])
    /\ RNeg(S(a)) = Num(-a[1], a[2]) /\ RAbs(S(a)) = Num(Abs(a[1]), a[2])
    /\ RSgn(S(a)) = (IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1)
OrderOK ==
    /\ REq(S(a), S(b)) = (Cross = 0) /\ RLt(S(a), S(b)) = (Cross < 0) /\ RLe(S(a), S(b)) = (Cross <= 0)
    /\ RMin(S(a), S(b)) = IF Cross <= 0 THEN S(a) ELSE S(b)
    /\ RMax(S(a), S(b)) = IF Cross >= 0 THEN S(a) ELSE S(b)
    /\ RFloor(S(a)) = ToString(FloorDiv(a[1], a[2]))
    /\ RToInt(S(a), 99) = IF a[1] % a[2] = 0 THEN a[1] \div a[2] ELSE 99
    /\ RNear(S(a), S(b), "1/2", "0") = (2 * Abs(Cross) <= a[2] * b[2])
RootOK == LET r == RSqrt(RAbs(S(a)), 10) IN
    /\ RLe(RMul(r, r), RAbs(S(a)))
    /\ LET q == RAdd(r, "1/1024") IN RLt(RAbs(S(a)), RMul(q, q))
\* the addition theorems tie cos, sin and exp down together with their values at 0
TransOK == LET x == S(a) y == S(b) e == "1/1099511627776" IN
    /\ RNear(RAdd(RMul(RCos(x, 50), RCos(x, 50)), RMul(RSin(x, 50), RSin(x, 50))), "1", e, "0")
    /\ RNear(RCos(RAdd(x, y), 50), RSub(RMul(RCos(x, 50), RCos(y, 50)), RMul(RSin(x, 50), RSin(y, 50))), e, "0")
    /\ RNear(RMul(RExp(x, 50), RExp(y, 50)), RExp(RAdd(x, y), 50), e, e)
    /\ RNear(RCos(RPi(60), 50), "-1", e, "0") /\ RNear(RSin(RDiv(RPi(60), 6), 50), "1/2", e, "0")
    /\ RExp("0", 50) = "1" /\ RCos("0", 50) = "1"
    /\ RNear(RExp("1", 50), "2718281828459045235360287/1000000000000000000000000", e, e)
\* the angle turns the positive axis onto the direction, and is the one in (-pi, pi]
AngleOK == (a[1] # 0 \/ b[1] # 0) =>
    LET y == S(a) x == S(b) t == RAtan2(y, x, 50) r == RSqrt(RAdd(RMul(x, x), RMul(y, y)), 60) e == "1/1099511627776" IN
    /\ RNear(RMul(r, RCos(t, 50)), x, e, "0") /\ RNear(RMul(r, RSin(t, 50)), y, e, "0")
    /\ RLe(RAbs(t), RAdd(RPi(60), "1/100000000000000")) /\ ((RSgn(y) = 0 /\ RSgn(x) < 0) => RSgn(t) > 0)
VecOK == LET u == <<S(a), S(b), "1">> v == <<S(b), "2", S(a)>> IN
    /\ RDot(u, v) = RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
    /\ RDot(RCross(u, v), u) = "0" /\ RDot(RCross(u, v), v) = "0"
    /\ RDist2(u, v) = RDot(RVSub(u, v), RVSub(u, v))
    /\ RVRound(u, 5) = <<RRound(S(a), 5), RRound(S(b), 5), "1">>
    /\ RVAdd(RVSub(u, v), v) = u /\ RVScale("2", u) = RVAdd(u, u)
    /\ RSpMV(<< <<0, 1, S(a)>>, <<1, 0, S(b)>>, <<0, 2, "3">> >>, 2, u) =
         <<RAdd(RMul(S(a), u[2]), RMul("3", u[3])), RMul(S(b), u[1])>>
NanOK == RAdd("nan", S(a)) = "nan" /\ ~RLe("nan", S(a)) /\ ~RLe(S(a), "inf") /\ ~REq("nan", "nan") /\ ~RNear("nan", S(a), "1", "1")
=============================================================================
