------------------------------- MODULE RatTest -------------------------------
(* What the Java override of Rat must compute, checked by TLC.             *)
EXTENDS Rat, TLC

F(n, d) == RFrac(n, d)
N == -3..3
P == 1..3

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE RAdd(SumTo(f, n - 1), f[n])
DDot(a, b)  == SumTo([i \in 1..Len(a) |-> RMul(a[i], b[i])], Len(a))
Col(m, j)   == [i \in 1..Len(m) |-> m[i][j]]
DMul(a, b)  == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> DDot(a[i], Col(b, j))]]

\* fractions: equal iff cross products are equal; the field operations
ASSUME \A a \in N, b \in P, c \in N, d \in P :
    /\ (F(a, b) = F(c, d)) <=> (a * d = c * b)
    /\ REq(F(a, b), F(c, d)) <=> (a * d = c * b)
    /\ RLeq(F(a, b), F(c, d)) <=> (a * d <= c * b)
    /\ RLt(F(a, b), F(c, d)) <=> (a * d < c * b)
    /\ RAdd(F(a, b), F(c, d)) = F(a * d + c * b, b * d)
    /\ RSub(F(a, b), F(c, d)) = F(a * d - c * b, b * d)
    /\ RMul(F(a, b), F(c, d)) = F(a * c, b * d)
    /\ c # 0 => RDiv(F(a, b), F(c, d)) = IF c > 0 THEN F(a * d, b * c) ELSE F(-a * d, -(b * c))
    /\ RNeg(F(a, b)) = F(-a, b)
    /\ RAbs(F(a, b)) = F(IF a < 0 THEN -a ELSE a, b)
ASSUME /\ RFin("0x1p+0") /\ ~RFin("nan") /\ ~RFin("inf") /\ ~RFin("-inf")
       /\ RNorm("0x1.8p-1") = F(3, 4) /\ RNorm("-0x1.0p+4") = F(-16, 1)
       /\ RNorm("0.125") = F(1, 8) /\ RNorm("25e-1") = F(5, 2) /\ RNorm("3e2") = F(300, 1)
       /\ RNorm("0x0.0p+0") = F(0, 1) /\ RNorm("-0x0.0p+0") = F(0, 1)
       /\ RMul(RNorm("0x1p-1074"), "0x1p+1000") = RDiv(One, RMul("0x1p+37", "0x1p+37"))
ASSUME \A n \in 0..20 : LET s == RSqrt(F(n, 7)) IN
       /\ RLeq(RMul(s, s), F(n, 7))
       /\ LET t == RMul(s, RAdd(One, "1e-30")) IN n > 0 => RLt(F(n, 7), RMul(t, t))
ASSUME LET x == RDiv(RAdd("1e60", One), RAdd("3e90", "7")) IN
       RLeq(RAbs(RSub(RTrim(x), x)), RMul("1e-50", x))
\* vectors and matrices against their definitions
V == {<<F(a, 2), F(b, 3), c>> : a \in {-1, 4}, b \in {0, 5}, c \in {"0x1.8p+1", "-2"}}
ASSUME \A a \in V, b \in V :
    /\ VDot(a, b) = DDot(a, b)
    /\ VSum(a) = SumTo(a, 3)
    /\ VAdd(a, b) = [i \in 1..3 |-> RAdd(a[i], b[i])]
    /\ VSub(a, b) = [i \in 1..3 |-> RSub(a[i], b[i])]
    /\ VScale(b[1], a) = [i \in 1..3 |-> RMul(b[1], a[i])]
    /\ \A i \in 1..3 : RLeq(VMin(a), a[i]) /\ RLeq(a[i], VMax(a)) /\ RLeq(RAbs(a[i]), VMaxAbs(a))
    /\ \E i \in 1..3 : REq(VMin(a), a[i])
    /\ \E i \in 1..3 : REq(VMax(a), a[i])
    /\ \E i \in 1..3 : REq(VMaxAbs(a), RAbs(a[i]))
    /\ VFin(a) /\ ~VFin(<<a[1], "nan">>)
M == {<<a, b>> : a \in V, b \in V}
ASSUME \A x \in M :
    LET y == <<x[2], x[1]>> t == MT(y) p == MMul(x, t) IN
    /\ t = [j \in 1..3 |-> [i \in 1..2 |-> RNorm(y[i][j])]]
    /\ p = DMul(x, t)
    /\ MTrace(p) = RAdd(p[1][1], p[2][2])
    /\ MDot(x, y) = RAdd(DDot(x[1], y[1]), DDot(x[2], y[2]))
    /\ MSum(x) = RAdd(VSum(x[1]), VSum(x[2]))
    /\ MAdd(x, y) = [i \in 1..2 |-> VAdd(x[i], y[i])]
    /\ MSub(x, y) = [i \in 1..2 |-> VSub(x[i], y[i])]
    /\ MScale("3", x) = [i \in 1..2 |-> VScale("3", x[i])]
    /\ REq(MMaxAbs(x), RMax(VMaxAbs(x[1]), VMaxAbs(x[2])))
    /\ LET third == MScale("1/3", x) IN
       /\ MTrim(third) = third
       /\ \A i \in 1..2, j \in 1..3 :
            LET long == RMul(third[i][j], "#1/1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000003") IN
            /\ MTrim(<<<<long>>>>) = <<<<RTrim(long)>>>>
            /\ RLeq(RAbs(RSub(RTrim(long), long)), RMul(RAbs(long), "1e-59"))
    /\ MFin(x) /\ ~MFin(<<x[1], <<"inf">>>>)
ASSUME \A a \in N, b \in N, c \in N, d \in N :
    LET A == <<<<F(a, 1), F(b, 2)>>, <<F(c, 1), F(d, 3)>>>>
        B == <<<<"1", "2">>, <<"-3", "1/7">>>>
        s == MSolve(A, B) IN
    IF RMul(A[1][1], A[2][2]) = RMul(A[1][2], A[2][1])
    THEN s = <<>>
    ELSE DMul(A, s) = [i \in 1..2 |-> [j \in 1..2 |-> RNorm(B[i][j])]]

VARIABLE x
Init == x = 0
Next == UNCHANGED x
==============================================================================
