--------------------------------- MODULE SPG ---------------------------------
(***************************************************************************)
(* The step rules of the spectral projected gradient searches (spg.py).    *)
(***************************************************************************)
EXTENDS Rat

\* Slope delta of the objective along the search direction, objective fold
\* at its start and fnew at the trial step: the minimiser of the quadratic
\* through these data.
Interpolate(step, delta, fold, fnew) ==
    RDiv(RMul("-0.5", RMul(RMul(step, step), delta)),
         RSub(RSub(fnew, fold), RMul(step, delta)))

Rejected(step, delta, fold, fnew, gamma) ==
    RLt(RAdd(fold, RMul(gamma, RMul(step, delta))), fnew)

\* The next trial step after a rejected one.
NextStep(step, delta, fold, fnew, s1, s2) ==
    LET c == Interpolate(step, delta, fold, fnew) IN
    IF RLeq(s1, c) /\ RLeq(c, RMul(s2, step)) THEN c ELSE RMul("0.5", step)

\* The same up to rounding: near the safeguards either branch may be taken.
IsNextStep(v, step, delta, fold, fnew, s1, s2) ==
    LET c    == Interpolate(step, delta, fold, fnew)
        hi   == RMul(s2, step)
        tol  == RMul("1e-9", step)
        in   == RLeq(RSub(s1, tol), c) /\ RLeq(c, RAdd(hi, tol))
        deep == RLeq(RAdd(s1, tol), c) /\ RLeq(c, RSub(hi, tol))
        near(w) == RNear(v, w, RMul("1e-10", step))
    IN  (in /\ near(c)) \/ (~deep /\ near(RMul("0.5", step)))

NextAlpha(beta, sksk, lo, hi) ==
    IF RLeq(beta, Zero) THEN hi ELSE RMin(hi, RMax(lo, RDiv(sksk, beta)))
IsNextAlpha(v, beta, sksk, lo, hi) ==
    LET a == NextAlpha(beta, sksk, lo, hi) IN RNear(v, a, RMul("1e-10", a))
==============================================================================
