--------------------------------- MODULE Varx ---------------------------------
(***************************************************************************)
(* Vector autoregression with exogenous inputs.                            *)
(*                                                                         *)
(* A series g is a record                                                  *)
(*   y      samples (n x d);  u  inputs (n x e), <<>> without              *)
(*   p, s   orders: preceding samples, preceding inputs                    *)
(*   trend  with an intercept;  now  with the input of the same time       *)
(* and a model m the record of mu (d), A [lag] (d x d), B [lag] (d x e),   *)
(* B0 (d x e); what the series does not call for is <<>>.                  *)
(***************************************************************************)
EXTENDS Rat, TLC

First(g) == IF g.p > g.s THEN g.p ELSE g.s      \* samples before the first predictable one
NOut(g)  == Len(g.y) - First(g)
D(g)     == Len(g.y[1])
E(g)     == IF g.u = <<>> THEN 0 ELSE Len(g.u[1])

\* The model value for sample t, by the equation
\*   mu + sum_l A_l y_(t-l) + sum_l B_l u_(t-l) + B0 u_t
MVec(M, v) == [i \in 1..Len(M) |-> VDot(M[i], v)]
RECURSIVE SumLags(_, _, _, _, _)
SumLags(M, x, t, l, d) ==
    IF l = 0 THEN [i \in 1..d |-> Zero]
    ELSE VAdd(SumLags(M, x, t, l - 1, d), MVec(M[l], x[t - l]))
Value(g, m, t) ==
    VAdd(VAdd(IF g.trend THEN m.mu ELSE [i \in 1..D(g) |-> Zero],
              SumLags(m.A, g.y, t, g.p, D(g))),
         IF g.u = <<>> THEN [i \in 1..D(g) |-> Zero]
         ELSE VAdd(SumLags(m.B, g.u, t, g.s, D(g)),
                   IF g.now THEN MVec(m.B0, g.u[t]) ELSE [i \in 1..D(g) |-> Zero]))
Residual(g, m, t) == VSub(g.y[t], Value(g, m, t))
ResidualRows(g, m) == TLCEval([i \in 1..NOut(g) |-> TLCEval(Residual(g, m, First(g) + i))])

\* The same as a regression: what precedes sample t, without the intercept.
RECURSIVE Back(_, _, _)
Back(x, t, l) == IF l = 0 THEN <<>> ELSE Back(x, t, l - 1) \o x[t - l]
Predictors(g, t) ==
    Back(g.y, t, g.p) \o (IF g.u = <<>> THEN <<>>
                          ELSE Back(g.u, t, g.s) \o (IF g.now THEN g.u[t] ELSE <<>>))
PredictorRows(g) == TLCEval([i \in 1..NOut(g) |-> Predictors(g, First(g) + i)])
DesignRows(g) == TLCEval([i \in 1..NOut(g) |->
                    (IF g.trend THEN <<One>> ELSE <<>>) \o Predictors(g, First(g) + i)])
OutRows(g) == Rows(g.y, First(g) + 1, Len(g.y))
RECURSIVE LagCols(_, _)
LagCols(M, l) == IF l = 0 THEN <<>> ELSE LagCols(M, l - 1) \o MT(M[l])
Coeffs(g, m) ==
    (IF g.trend THEN <<m.mu>> ELSE <<>>) \o LagCols(m.A, g.p)
    \o (IF g.u = <<>> THEN <<>> ELSE LagCols(m.B, g.s) \o (IF g.now THEN MT(m.B0) ELSE <<>>))
NCoef(g) == (IF g.trend THEN 1 ELSE 0) + g.p * D(g) + E(g) * (g.s + (IF g.now THEN 1 ELSE 0))

RECURSIVE SumFrom(_, _)
SumFrom(f, i) == IF i = 0 THEN Zero ELSE RAdd(SumFrom(f, i - 1), f[i])
\* Weighted least squares: the objective, and when it is least.  w has one
\* weight for every row of OutRows.
Weighted(w, M) == TLCEval([i \in 1..Len(M) |-> VScale(w[i], M[i])])
Objective(g, m, w) == LET R == ResidualRows(g, m) IN MDot(Weighted(w, R), R)
Gradient(g, m, w) ==  \* minus half of it
    MMul(MT(Weighted(w, DesignRows(g))), ResidualRows(g, m))
\* Norms of the columns of M under the weights.
ColNorms(w, M) ==
    LET A == MT(M) B == MT(Weighted(w, M)) IN
    TLCEval([j \in 1..Len(A) |-> RSqrt(RAbs(VDot(A[j], B[j])))])
\* Every entry of the gradient vanishes up to the rounding of the terms of its
\* own column and output; a solver working with all columns at once may leave
\* the rounding of the whole design times the residuals.
Optimal(g, m, w, rel) ==
    NCoef(g) = 0 \/
    LET Z == DesignRows(g)
        zc == ColNorms(w, Z)
        zn == RSqrt(VDot(zc, zc))
        yo == ColNorms(w, OutRows(g))
        ro == ColNorms(w, ResidualRows(g, m))
        C == MT(Coeffs(g, m))
        co == TLCEval([o \in 1..D(g) |-> RSqrt(VDot(C[o], C[o]))])
        Gr == TLCEval(Gradient(g, m, w))
        own == TLCEval([o \in 1..D(g) |-> RMul(rel, RAdd(yo[o], RMul(zn, co[o])))])
        all == TLCEval([o \in 1..D(g) |-> RAdd(RMul(RMul("1e-2", rel), RMul(zn, ro[o])), "1e-25")])
    IN \A j \in 1..NCoef(g) : \A o \in 1..D(g) :
          RLeq(RAbs(Gr[j][o]), RAdd(RMul(zc[j], own[o]), all[o]))

\* weighted cross-products of residuals
Cross(R, w) == MMul(MT(Weighted(w, R)), R)
\* C is the cross-products divided by df (nothing is said for df = 0)
CovarianceIs(C, R, w, df, rel) ==
    LET X == Cross(R, w) IN
    RLeq(RAbs(df), "1e-9") \/
    (MFin(C) /\ MNear(MScale(df, C), X, RAdd(RMul(rel, MTrace(X)), "1e-200")))
\* rounding of computed residuals: a part of the terms they are made of
ResidualTol(g, m) ==
    LET c == Coeffs(g, m) z == DesignRows(g) IN
    RMul("1e-12", RAdd(MMaxAbs(g.y),
        IF NCoef(g) = 0 THEN Zero ELSE RMul(RFrac(NCoef(g), 1), RMul(MMaxAbs(z), MMaxAbs(c)))))

\* shapes
ModelShape(g, m) ==
    /\ IF g.trend THEN Len(m.mu) = D(g) ELSE m.mu = <<>>
    /\ Len(m.A) = g.p /\ \A l \in 1..Len(m.A) : IsShape(m.A[l], D(g), D(g))
    /\ Len(m.B) = (IF g.u = <<>> THEN 0 ELSE g.s) /\ \A l \in 1..Len(m.B) : IsShape(m.B[l], D(g), E(g))
    /\ IF g.u # <<>> /\ g.now THEN IsShape(m.B0, D(g), E(g)) ELSE m.B0 = <<>>
ModelFin(g, m) ==
    /\ (g.trend => VFin(m.mu))
    /\ \A l \in 1..Len(m.A) : MFin(m.A[l])
    /\ \A l \in 1..Len(m.B) : MFin(m.B[l])
    /\ (m.B0 # <<>> => MFin(m.B0))
==============================================================================
