------------------------------- MODULE Simplex -------------------------------
(***************************************************************************)
(* Euclidean projection onto the probability simplex.                      *)
(*                                                                         *)
(* IsProjection(x, y, eps) is the definition: y is a probability vector    *)
(* and satisfies the optimality (KKT) conditions of                        *)
(*        min |x - z|^2   over   z >= 0, sum z = 1,                        *)
(* i.e. for some threshold tau, x[i] - y[i] = tau wherever y[i] > 0 and    *)
(* x[i] <= tau wherever y[i] = 0.  The problem is strictly convex, so the  *)
(* conditions characterise the unique nearest point (checked against       *)
(* enumeration in SimplexMC).  Project(x) computes it: tau is the largest  *)
(* of (sum of the k largest entries - 1) / k.                              *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, TLC

SortDown(x) == SortSeq(x, LAMBDA a, b : RLt(b, a))

RECURSIVE BestTau(_, _, _, _, _)
BestTau(s, k, sum, best, n) ==
    IF k > n THEN best
    ELSE LET sm == RAdd(sum, s[k])
             tk == RDiv(RSub(sm, One), RFrac(k, 1))
         IN BestTau(s, k + 1, sm, IF k = 1 THEN tk ELSE RMax(best, tk), n)

Tau(x) == LET s == SortDown(x) IN BestTau(s, 1, Zero, Zero, Len(s))

Project(x) == LET t == Tau(x) IN
              TLCEval([i \in 1..Len(x) |-> RMax(RSub(x[i], t), Zero)])
ProjectRows(X) == TLCEval([i \in 1..Len(X) |-> Project(X[i])])

IsProbability(y) == /\ \A i \in 1..Len(y) : RLeq(Zero, y[i])
                    /\ REq(VSum(y), One)

IsProjection(x, y) ==
    /\ Len(x) = Len(y)
    /\ IsProbability(y)
    /\ \E j \in 1..Len(x) :
         /\ RLt(Zero, y[j])
         /\ LET t == RSub(x[j], y[j]) IN
            \A i \in 1..Len(x) : IF RLt(Zero, y[i]) THEN REq(RSub(x[i], y[i]), t)
                                 ELSE RLeq(x[i], t)

Dist2(x, y) == LET d == VSub(x, y) IN VDot(d, d)

\* Rounding of a floating-point projection, growing with the number of
\* entries only: the entries of the projection are at most one apart, and
\* those of the input that matter lie within one of the largest.
ProjTol(x) == RMul("4e-15", RFrac(Len(x) + 4, 1))

\* What a computed projection of x may be.
ProjClauses(x, y) ==
    IF Len(y) # Len(x) THEN {"shape"}
    ELSE IF ~VFin(y) THEN {"not-finite"}
    ELSE (IF \A i \in 1..Len(y) : RLeq(Zero, y[i]) THEN {} ELSE {"negative-entry"})
         \cup (IF RNear(VSum(y), One, RMul(ProjTol(x), RFrac(Len(x), 1))) THEN {} ELSE {"sum-not-one"})
         \cup (IF VNear(y, Project(x), ProjTol(x)) THEN {} ELSE {"not-nearest"})
==============================================================================
