----------------------------- MODULE Factorisation ----------------------------
(***************************************************************************)
(* The objectives of the factorisation models, their exact gradients, and  *)
(* one block update (safeguarded spectral projected-gradient step).        *)
(*                                                                         *)
(* A problem p is a record                                                 *)
(*   kind   "gpnh" | "mtd" | "aa" | "crom"                                 *)
(*   X      data (n x d) or kernel (n x n, "aa")                           *)
(*   es, ew regularisation strengths;  lags  sequence of positive lags     *)
(* and a state s a record                                                  *)
(*   D      dictionary (k x d), or archetype coefficients (k x n)          *)
(*   G      weights (n x k)                                                *)
(*   L      order weights;  P  sequence of transition matrices (k x k)     *)
(* Blocks are "D", "G" and "P" (order weights and transition matrices      *)
(* together); the value of a block is a sequence of matrices.              *)
(***************************************************************************)
EXTENDS Simplex, SPG

Blocks(p) == IF p.kind = "mtd" THEN <<"D", "G", "P">>
             ELSE IF p.kind = "crom" THEN <<"P">> ELSE <<"D", "G">>

NSamples(p)  == Len(p.X)
NFeatures(p) == Len(p.X[1])
NComp(s)     == Len(s.D)
MaxLag(p)    == CHOOSE l \in {p.lags[i] : i \in 1..Len(p.lags)} :
                    \A j \in 1..Len(p.lags) : p.lags[j] <= l
\* number of samples with a full history
NPred(p)     == LET m == NSamples(p) - MaxLag(p) IN IF m < 1 THEN 0 ELSE m

----------------------------------------------------------------------------
\* one-step prediction of the weights by the mixture-transition model:
\* sample t (counting from 1) from the weights lag[i] samples earlier
PredictAt(p, s, t) ==
    TLCEval(LET RECURSIVE Sum(_)
        Sum(i) == IF i = 0 THEN [c \in 1..NComp(s) |-> Zero]
                  ELSE VAdd(Sum(i - 1),
                            VScale(s.L[i], MMul(<<s.G[t - p.lags[i]]>>, MT(s.P[i]))[1]))
    IN Sum(Len(p.lags)))
\* residuals of samples MaxLag+1..n
WeightResidual(p, s) ==
    TLCEval([t \in 1..NPred(p) |-> VSub(s.G[MaxLag(p) + t], PredictAt(p, s, MaxLag(p) + t))])

Fit(p, s) == LET R == MSub(p.X, MMul(s.G, s.D)) IN
    RMul(RFrac(1, NSamples(p) * NFeatures(p)), MDot(R, R))
Separation(p, s) ==
    LET k == NComp(s) Q == MMul(s.D, MT(s.D)) IN
    IF k = 1 THEN Zero
    ELSE RMul(RMul(p.es, RFrac(2, k * NFeatures(p) * (k - 1))),
              RSub(RMul(RFrac(k, 1), MTrace(Q)), MSum(Q)))
Transition(p, s) ==
    LET k == NComp(s) R == WeightResidual(p, s) IN
    IF k = 1 \/ NPred(p) = 0 THEN Zero
    ELSE RMul(RMul(p.ew, RFrac(1, k * NPred(p))), MDot(R, R))
KernelError(p, s) ==
    LET CK == MMul(s.D, p.X) IN
    RAdd(RSub(MDot(MMul(MT(s.G), s.G), MMul(CK, MT(s.D))),
              RMul(Two, MTrace(MMul(s.G, CK)))), MTrace(p.X))

Cost(p, s) == IF p.kind = "aa" THEN KernelError(p, s)
              ELSE IF p.kind = "gpnh" THEN RAdd(Fit(p, s), Separation(p, s))
              ELSE IF p.kind = "mtd" THEN RAdd(Fit(p, s), RAdd(Separation(p, s), Transition(p, s)))
              ELSE Transition(p, s)
\* magnitude of the terms that make up the objective (for rounding errors)
CostScale(p, s) ==
    IF p.kind = "aa"
    THEN LET CK == MMul(s.D, p.X) IN
         RAdd(RAdd(RAbs(MDot(MMul(MT(s.G), s.G), MMul(CK, MT(s.D)))),
                   RAbs(RMul(Two, MTrace(MMul(s.G, CK))))), RAbs(MTrace(p.X)))
    ELSE IF p.kind = "crom" THEN One
    ELSE LET n == RFrac(1, NSamples(p) * NFeatures(p))
             R == MMul(s.G, s.D)
             k == NComp(s) Q == MMul(s.D, MT(s.D))
             sep == IF k = 1 THEN Zero
                    ELSE RMul(RMul(p.es, RFrac(2, k * NFeatures(p) * (k - 1))),
                              RMul(RFrac(2 * k, 1), MTrace(Q)))
         IN RAdd(RMul(n, RAdd(MDot(p.X, p.X), MDot(R, R))),
                 RAdd(sep, IF p.kind = "mtd" THEN RMul(p.ew, One) ELSE Zero))

----------------------------------------------------------------------------
\* gradients: a sequence of terms, each a block value; the gradient is their
\* sum (the terms are kept apart to judge rounding errors)
ZeroM(n, m) == [i \in 1..n |-> [j \in 1..m |-> Zero]]

GradD(p, s) ==
    IF p.kind = "aa"
    THEN <<<<MScale("-2", MMul(MT(s.G), p.X))>>,
           <<MScale(Two, MMul(MMul(MT(s.G), s.G), MMul(s.D, p.X)))>>>>
    ELSE LET c == RFrac(2, NSamples(p) * NFeatures(p))
             k == NComp(s)
             pen == IF k = 1 THEN ZeroM(1, NFeatures(p))
                    ELSE LET cs == MMul(<<[i \in 1..k |-> One]>>, s.D)[1] IN
                         MScale(RMul(p.es, RFrac(4, NFeatures(p) * k * (k - 1))),
                                [i \in 1..k |-> VSub(VScale(RFrac(k, 1), s.D[i]), cs)])
         IN <<<<MScale(RNeg(c), MMul(MT(s.G), p.X))>>,
              <<MScale(c, MMul(MMul(MT(s.G), s.G), s.D))>>, <<pen>>>>

\* derivative of the transition penalty with respect to the weights
GradTransitionG(p, s) ==
    LET k == NComp(s) n == NSamples(p) m == MaxLag(p) R == WeightResidual(p, s) IN
    IF k = 1 \/ NPred(p) = 0 THEN ZeroM(n, k)
    ELSE LET c == RMul(p.ew, RFrac(2, k * NPred(p)))
             RP == TLCEval([i \in 1..Len(p.lags) |-> MScale(s.L[i], MMul(R, s.P[i]))])
             RECURSIVE Back(_, _)
             Back(t, i) == \* - sum over lags of lam_i (R_{t+lag_i} P_i)
                 IF i = 0 THEN [j \in 1..k |-> Zero]
                 ELSE LET u == t + p.lags[i] - m IN
                      IF u \in 1..NPred(p) THEN VSub(Back(t, i - 1), RP[i][u]) ELSE Back(t, i - 1)
             Own(t) == IF t > m THEN R[t - m] ELSE [j \in 1..k |-> Zero]
         IN TLCEval([t \in 1..n |-> VScale(c, VAdd(Own(t), Back(t, Len(p.lags))))])

GradG(p, s) ==
    IF p.kind = "aa"
    THEN <<<<MScale("-2", MMul(p.X, MT(s.D)))>>,
           <<MScale(Two, MMul(s.G, MMul(MMul(s.D, p.X), MT(s.D))))>>>>
    ELSE LET c == RFrac(2, NSamples(p) * NFeatures(p)) IN
         <<<<MScale(RNeg(c), MMul(p.X, MT(s.D)))>>,
           <<MScale(c, MMul(s.G, MMul(s.D, MT(s.D))))>>>>
         \o (IF p.kind = "mtd" THEN <<<<GradTransitionG(p, s)>>>> ELSE <<>>)

GradP(p, s) ==
    LET k == NComp(s) n == NSamples(p) m == MaxLag(p) R == WeightResidual(p, s)
        q == Len(p.lags) IN
    IF k = 1 \/ NPred(p) = 0
    THEN <<<<ZeroM(1, q)>> \o [i \in 1..q |-> ZeroM(k, k)]>>
    ELSE LET c == RMul(p.ew, RFrac(-2, k * NPred(p)))
             Past(i) == Rows(s.G, m - p.lags[i] + 1, n - p.lags[i])
         IN <<<<<<TLCEval([i \in 1..q |-> RMul(c, MDot(R, MMul(Past(i), MT(s.P[i]))))])>>>>
              \o TLCEval([i \in 1..q |-> MScale(RMul(c, s.L[i]), MMul(MT(R), Past(i)))])>>

\* block values
Get(s, b) == IF b = "D" THEN <<s.D>> ELSE IF b = "G" THEN <<s.G>> ELSE <<<<s.L>>>> \o s.P
Put(s, b, v) == IF b = "D" THEN [s EXCEPT !.D = v[1]]
                ELSE IF b = "G" THEN [s EXCEPT !.G = v[1]]
                ELSE [s EXCEPT !.L = v[1][1], !.P = SubSeq(v, 2, Len(v))]
BAdd(u, v)   == TLCEval([i \in 1..Len(u) |-> MAdd(u[i], v[i])])
BSub(u, v)   == TLCEval([i \in 1..Len(u) |-> MSub(u[i], v[i])])
BScale(c, u) == TLCEval([i \in 1..Len(u) |-> MScale(c, u[i])])
BTrim(u)     == TLCEval([i \in 1..Len(u) |-> MTrim(u[i])])
BDot(u, v)   == VSum([i \in 1..Len(u) |-> MDot(u[i], v[i])])
BMaxAbs(u)   == VMaxAbs([i \in 1..Len(u) |-> MMaxAbs(u[i])])
BSize(u)     == LET RECURSIVE C(_) C(i) == IF i = 0 THEN 0 ELSE C(i - 1) + Len(u[i]) * Len(u[i][1])
                IN C(Len(u))
RECURSIVE BSum(_)
BSum(ts) == IF Len(ts) = 1 THEN ts[1] ELSE BAdd(ts[1], BSum(Tail(ts)))

GradTerms(p, s, b) == IF b = "D" THEN GradD(p, s) ELSE IF b = "G" THEN GradG(p, s) ELSE GradP(p, s)
Grad(p, s, b)      == BSum(GradTerms(p, s, b))
\* size of the terms a gradient is made of; those of the transition penalty are
\* differences of probability vectors
GradScale(p, s, b) ==
    LET t == GradTerms(p, s, b)
        c == IF p.kind \in {"mtd", "crom"} /\ NComp(s) > 1 /\ NPred(p) > 0
             THEN IF b = "P" THEN RMul(p.ew, RFrac(4, NComp(s)))
                  ELSE IF b = "G" /\ p.kind = "mtd" THEN RMul(p.ew, RFrac(4, NComp(s) * NPred(p))) ELSE Zero
             ELSE Zero
    IN RAdd(c, VSum([i \in 1..Len(t) |-> BMaxAbs(t[i])]))

\* the constraint set of a block
ProjectBlock(p, b, v) ==
    IF b = "D" THEN (IF p.kind = "aa" THEN <<ProjectRows(v[1])>> ELSE v)
    ELSE IF b = "G" THEN <<ProjectRows(v[1])>>
    ELSE <<ProjectRows(v[1])>> \o TLCEval([i \in 1..(Len(v) - 1) |-> MT(ProjectRows(MT(v[i + 1])))])

RowsStochastic(M, tol) ==
    \A i \in 1..Len(M) : /\ RLeq(RNeg(tol), VMin(M[i]))
                         /\ RNear(VSum(M[i]), One, tol)
BlockFeasible(p, b, v, tol) ==
    IF b = "D" THEN p.kind # "aa" \/ RowsStochastic(v[1], tol)
    ELSE IF b = "G" THEN RowsStochastic(v[1], tol)
    ELSE RowsStochastic(v[1], tol) /\ \A i \in 2..Len(v) : RowsStochastic(MT(v[i]), tol)

----------------------------------------------------------------------------
\* The move of a block update with spectral step alpha.
Increment(p, s, b, g, alpha) ==
    LET v == Get(s, b) IN
    BTrim(BSub(ProjectBlock(p, b, BSub(v, BScale(alpha, g))), v))

\* Squared step over curvature, from the move actually made.
Curvature(move, g0, g1) == [sksk |-> BDot(move, move), beta |-> BDot(move, BSub(g1, g0))]

Norm(u) == RSqrt(BDot(u, u))
\* generous bound for floating-point rounding in N terms of the given size
Eps(n, size) == RMul(RMul("4e-16", RFrac(n + 8, 1)), size)

\* Options o: gamma, s1, s2 (search), amin, amax (spectral step), steptol.
\* A spectral step is [known, v, rho]: its value up to relative error rho.
FirstAlpha == [known |-> TRUE, v |-> One, rho |-> Zero]

\* Every step length at which the search may stop.  The objective values
\* are known up to err; where a decision cannot be told from its opposite
\* both are followed.  A record [any |-> TRUE] stands for "cannot be told".
RECURSIVE Stops(_, _, _, _, _, _, _, _, _, _, _, _)
Stops(p, o, s, b, inc, delta, fold, fmax, err, step, tol, n) ==
    LET f      == Cost(p, Put(s, b, BAdd(Get(s, b), BScale(step, inc))))
        margin == RSub(RSub(f, fmax), RMul(RMul(o.gamma, step), delta))
        acc    == IF RLeq(margin, err) THEN {[any |-> FALSE, step |-> step, tol |-> tol]} ELSE {}
        den    == RSub(RSub(f, fold), RMul(step, delta))
        e      == IF RLeq(den, Zero) THEN One ELSE RDiv(err, den)
        c      == Interpolate(step, delta, fold, f)
        lo     == RMul(c, RSub(One, RAdd(e, "1e-9")))
        hi     == RMul(c, RAdd(One, RAdd(e, "1e-9")))
        up     == RMul(o.s2, step)
        half   == RMul("0.5", step)
        mayIn  == RLeq(o.s1, hi) /\ RLeq(lo, up)
        mayOut == ~(RLeq(o.s1, lo) /\ RLeq(hi, up))
    IN  IF RLt(margin, RNeg(err)) THEN acc
        ELSE acc \cup
             (IF n > 45 \/ RLt("1e-4", e) THEN {[any |-> TRUE]}
              ELSE (IF mayOut THEN (IF RLt(half, o.steptol) THEN {[any |-> TRUE]}
                                    ELSE Stops(p, o, s, b, inc, delta, fold, fmax, err, half, tol, n + 1))
                    ELSE {})
                   \cup
                   (IF mayIn THEN Stops(p, o, s, b, inc, delta, fold, fmax, err, RTrim(c), RAdd(tol, e), n + 1)
                    ELSE {}))

\* Clauses violated by the update of block b of state s to new, with
\* spectral step al and reference objective fmax.
StepClauses(p, o, s, b, new, al, fmax) ==
    LET v     == Get(s, b)
        move  == BSub(Get(new, b), v)
        n     == BSize(v)
        g     == Grad(p, s, b)
        gs    == GradScale(p, s, b)
        inc   == Increment(p, s, b, g, al.v)
        inc2  == BDot(inc, inc)
        size  == RAdd(RAdd(BMaxAbs(v), BMaxAbs(inc)), RMul(al.v, gs))
        drift == RMul(RMul(al.rho, al.v), Norm(g))      \* of inc, from rho
        eps   == RAdd(Eps(n, size), drift)
        lam   == RDiv(BDot(move, inc), inc2)
        off   == BMaxAbs(BSub(move, BScale(lam, inc)))
        delta == BDot(inc, g)
        fold  == Cost(p, s)
        err   == RAdd(Eps(n + NSamples(p) * NSamples(p), RAdd(CostScale(p, s), CostScale(p, new))),
                      RMul(Two, RMul(drift, RAdd(Norm(g), gs))))
        lerr  == RDiv(RMul(RFrac(n, 1), eps), RSqrt(inc2))
        stops == Stops(p, o, s, b, inc, delta, fold, RMax(fold, fmax), err, One, Zero, 0)
        fits(st) == st.any \/ RNear(lam, st.step, RAdd(lerr, RMul(st.step, RAdd("1e-7", RMul("4", st.tol)))))
    IN  IF ~al.known THEN {}
        ELSE IF RLeq(RSqrt(inc2), RMul(RMul("1000", RFrac(n, 1)), eps))
        THEN \* stationary up to rounding: nothing to take
             IF RLeq(BMaxAbs(move), RMul("2000", RMul(RFrac(n, 1), eps))) THEN {} ELSE {b \o "-moved-although-stationary"}
        ELSE (IF RLeq(off, RMul("4", eps)) THEN {} ELSE {b \o "-not-along-the-projected-gradient"})
             \cup (IF RLeq(RNeg(lerr), lam) /\ RLeq(lam, RAdd(One, RAdd(lerr, "1e-9")))
                   THEN {} ELSE {b \o "-fraction-outside-0-1"})
             \cup (IF RLeq(RSub(Cost(p, new), RAdd(RMax(fold, fmax), RMul(RMul(o.gamma, lam), delta))), err)
                      \/ RLeq(lam, RMul(Two, o.steptol))
                   THEN {} ELSE {b \o "-insufficient-decrease"})
             \cup (IF \E st \in stops : fits(st) THEN {} ELSE {b \o "-fraction-not-from-the-safeguarded-search"})

\* The spectral step of the next update of block b, from the move made.
SpectralAfter(p, o, s, b, new, al) ==
    LET v    == Get(s, b)
        move == BSub(Get(new, b), v)
        n    == BSize(v)
        g0   == Grad(p, s, b)
        y    == BSub(Grad(p, new, b), g0)
        gs   == RAdd(GradScale(p, s, b), GradScale(p, new, b))
        sk   == BDot(move, move)
        beta == BDot(move, y)
        ns   == RSqrt(sk)
        es   == Eps(n, RAdd(BMaxAbs(v), IF al.known THEN RMul(al.v, gs) ELSE RMul(o.amax, gs)))
        eb   == RAdd(RMul(es, Norm(y)), RMul(ns, Eps(n, gs)))
        unknown == [known |-> FALSE, v |-> One, rho |-> Zero]
    IN  IF RLeq(sk, RMul("1e6", RMul(es, es))) THEN unknown
        ELSE IF RLeq(beta, RNeg(eb)) THEN [known |-> TRUE, v |-> o.amax, rho |-> Zero]
        ELSE IF RLeq(beta, RMul("1e3", eb)) THEN unknown
        ELSE LET a   == RDiv(sk, beta)
                 rho == RMul(Two, RAdd(RDiv(eb, beta), RDiv(RMul(Two, es), ns)))
             IN  IF RLeq(o.amax, RMul(a, RSub(One, rho))) THEN [known |-> TRUE, v |-> o.amax, rho |-> Zero]
                 ELSE IF RLeq(RMul(a, RAdd(One, rho)), o.amin) THEN [known |-> TRUE, v |-> o.amin, rho |-> Zero]
                 ELSE IF RLt("1e-5", rho) THEN unknown
                 ELSE [known |-> TRUE, v |-> RTrim(RMin(o.amax, RMax(o.amin, a))), rho |-> rho]
==============================================================================
