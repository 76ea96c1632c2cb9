--------------------------------- MODULE Fembv --------------------------------
(***************************************************************************)
(* Clustering with affiliations of bounded variation (FEM-BV).             *)
(*                                                                         *)
(* A problem p is a record                                                 *)
(*   X    samples (n x d);  U  exogenous inputs (n x e), <<>> without      *)
(*   mem  memory of every component                                        *)
(*   tv   bound on the total variation of an affiliation, "none" without   *)
(* and a state s a record                                                  *)
(*   mu   intercepts or centroids (k x d);  A  lag matrices [k][lag]       *)
(*   B    exogenous coefficients [k] (d x e)                               *)
(*   G    affiliations, one row per sample after the longest memory        *)
(* k-means is the case without memory and without inputs.                  *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

SeqMax(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= m
NComp(p) == Len(p.mem)
MaxMem(p) == SeqMax(p.mem)
NRows(p) == Len(p.X) - MaxMem(p)
Dim(p)   == Len(p.X[1])

RECURSIVE Lagged(_, _, _)
Lagged(p, t, l) == IF l = 0 THEN <<>> ELSE Lagged(p, t, l - 1) \o p.X[t - l]
\* regressors of component j: one, the preceding samples, the inputs
Design(p, j) ==
    TLCEval([i \in 1..NRows(p) |->
        LET t == MaxMem(p) + i IN
        <<One>> \o Lagged(p, t, p.mem[j]) \o (IF p.U = <<>> THEN <<>> ELSE p.U[t])])
Targets(p) == Rows(p.X, MaxMem(p) + 1, Len(p.X))
RECURSIVE LagRows(_, _)
LagRows(A, l) == IF l = 0 THEN <<>> ELSE LagRows(A, l - 1) \o MT(A[l])
\* the coefficients in the order of the regressors
Coefficients(p, s, j) ==
    <<s.mu[j]>> \o (IF p.mem[j] = 0 THEN <<>> ELSE LagRows(s.A[j], p.mem[j]))
                \o (IF p.U = <<>> THEN <<>> ELSE MT(s.B[j]))
Residuals(p, s, j) == MSub(Targets(p), MMul(Design(p, j), Coefficients(p, s, j)))
\* squared residuals: n' x k
Distances(p, s) ==
    LET R == TLCEval([j \in 1..NComp(p) |-> Residuals(p, s, j)]) IN
    TLCEval([i \in 1..NRows(p) |-> TLCEval([j \in 1..NComp(p) |-> VDot(R[j][i], R[j][i])])])
Cost(p, s) == MDot(s.G, Distances(p, s))

----------------------------------------------------------------------------
\* Affiliations
ColumnOf(G, j) == [i \in 1..Len(G) |-> G[i][j]]
Variation(x) == LET RECURSIVE V(_)
                    V(i) == IF i < 2 THEN Zero ELSE RAdd(V(i - 1), RAbs(RSub(x[i], x[i - 1])))
                IN V(Len(x))
RowStochastic(G, neg, tol) ==
    \A i \in 1..Len(G) : RLeq(RNeg(neg), VMin(G[i])) /\ RNear(VSum(G[i]), One, tol)
WithinBound(G, tv, tol) ==
    tv = "none" \/ \A j \in 1..Len(G[1]) : RLeq(Variation(ColumnOf(G, j)), RAdd(tv, tol))

\* For all affiliations G within the bound and every matrix q of multipliers
\* (one row less than G):
\*   sum G*D >= sum_t min_j (D[t][j] + q[t-1][j] - q[t][j]) - tv sum_j max_t |q[t][j]|
\* with q zero before the first and after the last row (weak duality; see
\* FembvMC).  So a cost equal to the bound of some q is the least possible.
LowerBound(D, q, tv) ==
    LET n == Len(D) k == Len(D[1])
        Q(t, j) == IF t < 1 \/ t > Len(q) THEN Zero ELSE q[t][j]
        row(t) == VMin([j \in 1..k |-> RAdd(D[t][j], RSub(Q(t - 1, j), Q(t, j)))])
        assigned == VSum(TLCEval([t \in 1..n |-> row(t)]))
    IN IF tv = "none" \/ q = <<>> THEN VSum([t \in 1..n |-> VMin(D[t])])
       ELSE RSub(assigned, RMul(tv, VSum([j \in 1..k |-> VMaxAbs(ColumnOf(q, j))])))

\* Optimal affiliations, up to the accuracy of the solver
LPTol(D) == RAdd(RMul("2e-6", MSum(D)), RMul("1e-18", RFrac(Len(D), 1)))
\* ... and up to the rounding of the distances it was given, which are squares
\* of differences of numbers of the size of the data: an exact fit leaves
\* nothing but that rounding.
DistanceTol(p, D) == RAdd(LPTol(D), RMul("1e-20", MDot(p.X, p.X)))
OptimalFor(p, G, D, q, tv) ==
    RLeq(MDot(G, D), RAdd(RMax(LowerBound(D, q, tv), LowerBound(D, <<>>, "none")), DistanceTol(p, D)))
\* rounding of a sum of squared residuals
Rounding(p, D) == RAdd(RMul("1e-9", MSum(D)), RMul("1e-18", RAdd(One, MDot(p.X, p.X))))

----------------------------------------------------------------------------
\* Parameters: the gradient of the affiliation-weighted squared residuals of
\* component j vanishes, relative to the terms it is made of.
WeightRows(w, M) == TLCEval([i \in 1..Len(M) |-> VScale(w[i], M[i])])
ColumnNorms(w, M) ==
    LET A == MT(M) B == MT(WeightRows(w, M)) IN
    TLCEval([c \in 1..Len(A) |-> RSqrt(RAbs(VDot(A[c], B[c])))])
NormalEquations(p, s, G, j, rel) ==
    LET Z  == Design(p, j)
        w  == ColumnOf(G, j)
        B  == Coefficients(p, s, j)
        R  == Residuals(p, s, j)
        g  == TLCEval(MMul(MT(WeightRows(w, Z)), R))
        zc == ColumnNorms(w, Z)
        zn == RSqrt(VDot(zc, zc))
        yo == ColumnNorms(w, Targets(p))
        ro == ColumnNorms(w, R)
        bo == LET C == MT(B) IN TLCEval([o \in 1..Dim(p) |-> RSqrt(VDot(C[o], C[o]))])
        own == TLCEval([o \in 1..Dim(p) |-> RMul(rel, RAdd(yo[o], RMul(zn, bo[o])))])
        all == TLCEval([o \in 1..Dim(p) |-> RAdd(RMul(RMul("1e-2", rel), RMul(zn, ro[o])), "1e-25")])
    IN \A c \in 1..Len(Z[1]) : \A o \in 1..Dim(p) :
          RLeq(RAbs(g[c][o]), RAdd(RMul(zc[c], own[o]), all[o]))
==============================================================================
