-------------------------------- MODULE VarxMC --------------------------------
(***************************************************************************)
(* Series produced by a piecewise autoregression with inputs, in exact     *)
(* arithmetic: each regime has its own coefficients, the regime and the    *)
(* input of every step are arbitrary, and a disturbance may hit one step.  *)
(* Checked: the equation and the regression agree; on a series without     *)
(* disturbance the generating coefficients are optimal in every regime     *)
(* (and the only optimal ones if the regressors are independent); optimal  *)
(* coefficients minimise the sum of squares; weights leave out what has    *)
(* weight zero.                                                            *)
(***************************************************************************)
EXTENDS Varx, IOUtils, Json, CSV, FiniteSets
CONSTANTS P, S, N, Regimes, Now

Coef == {"-1/2", "1"}
F == IF P > S THEN P ELSE S
VARIABLES y, u, r, ms, hit
vars == <<y, u, r, ms, hit>>

G == [y |-> y, u |-> IF S = 0 /\ ~Now THEN <<>> ELSE u, p |-> P, s |-> S, trend |-> TRUE, now |-> Now]
Models == {[mu |-> <<a>>, A |-> [l \in 1..P |-> <<<<b>>>>], B |-> [l \in 1..S |-> <<<<c>>>>],
            B0 |-> IF Now THEN <<<<"2">>>> ELSE <<>>] : a \in {"0", "1"}, b \in Coef, c \in {One}}
Init == /\ ms \in [1..Regimes -> Models]
        /\ y = [t \in 1..F |-> <<IF t % 2 = 1 THEN One ELSE "2">>]
        /\ u = [t \in 1..F |-> <<IF t % 2 = 1 THEN One ELSE Zero>>]
        /\ r = <<>> /\ hit = FALSE
Step(k, x, e) ==
    LET g == [y |-> Append(y, <<Zero>>), u |-> Append(u, <<x>>), p |-> P, s |-> S, trend |-> TRUE, now |-> Now]
        m == ms[k]
        g2 == IF S = 0 /\ ~Now THEN [g EXCEPT !.u = <<>>] ELSE g
    IN /\ y' = Append(y, TLCEval(VAdd(Value(g2, m, Len(y) + 1), <<e>>)))
       /\ u' = Append(u, <<x>>)
       /\ r' = Append(r, k)
       /\ hit' = (hit \/ ~REq(e, Zero))
       /\ UNCHANGED ms
Next == /\ Len(y) < N
        /\ \E k \in 1..Regimes, x \in {Zero, One}, e \in {Zero, One} :
              /\ ~(hit /\ ~REq(e, Zero))
              /\ Step(k, x, e)

W(k) == [i \in 1..Len(r) |-> IF r[i] = k THEN One ELSE Zero]
\* equation = regression
Agree == NOut(G) = 0 \/ \A k \in 1..Regimes :
           ResidualRows(G, ms[k]) = MSub(OutRows(G), MMul(DesignRows(G), Coeffs(G, ms[k])))
\* the generator is optimal without disturbance
Generator == (hit \/ Len(y) < N) \/ \A k \in 1..Regimes :
               /\ Optimal(G, ms[k], W(k), Zero) /\ REq(Objective(G, ms[k], W(k)), Zero)
\* the solution of the normal equations
Gram(k) == MMul(MT(Weighted(W(k), DesignRows(G))), DesignRows(G))
Solution(k) == MSolve(Gram(k), MMul(MT(Weighted(W(k), DesignRows(G))), OutRows(G)))
Model(c) == [mu |-> c[1],
             A |-> TLCEval([l \in 1..P |-> <<c[1 + l]>>]),
             B |-> TLCEval([l \in 1..S |-> <<c[1 + P + l]>>]),
             B0 |-> IF Now THEN <<c[2 + P + S]>> ELSE <<>>]
Solved == (Len(y) < N) \/ \A k \in 1..Regimes :
    LET c == Solution(k) IN
    c = <<>> \/ LET m == Model(c) IN
        /\ Optimal(G, m, W(k), Zero)
        \* no other model is better, and the generator only if it is the same
        /\ \A o \in Models : RLeq(Objective(G, m, W(k)), Objective(G, o, W(k)))
        /\ ~hit => \A i \in 1..Len(c) : REq(c[i][1], Coeffs(G, ms[k])[i][1])
        \* a model away from it is worse and not optimal
        /\ LET o == [m EXCEPT !.mu = VAdd(m.mu, <<"1/16">>)]
           IN ~Optimal(G, o, W(k), Zero) /\ RLt(Objective(G, m, W(k)), Objective(G, o, W(k)))
\* behaviours for replay
Report == (Len(y) < N \/ IOEnv.OUT = "") \/ CSVWrite("%1$s", <<ToJson([y |-> y, u |-> u, r |-> r, p |-> P, s |-> S, now |-> Now])>>, IOEnv.OUT)
==============================================================================
