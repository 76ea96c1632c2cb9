------------------------------ MODULE PWVarxTrace ------------------------------
(***************************************************************************)
(* Recorded fits of a piecewise VARX model: what the clusterer and the     *)
(* classifier were given, the labels, and the model of every regime; then  *)
(* the transforms of the fitted model.                                     *)
(***************************************************************************)
EXTENDS Varx, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
T == Traces[tr]
TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {}

Swap(g) == TLCEval([k \in 1..NOut(g) |-> OutRows(g)[k] \o Predictors(g, First(g) + k)])
Joined(g) == TLCEval([k \in 1..NOut(g) |-> Predictors(g, First(g) + k) \o OutRows(g)[k]])
RegimeWeights(labels, k) == [t \in 1..Len(labels) |-> IF labels[t] = k - 1 THEN One ELSE Zero]
Count(labels, k) == LET RECURSIVE C(_)
                        C(t) == IF t = 0 THEN 0 ELSE C(t - 1) + (IF labels[t] = k - 1 THEN 1 ELSE 0)
                    IN C(Len(labels))
\* equality of recorded doubles as numbers
SameRows(a, b) == SameShape(a, b) /\ (Len(a) = 0 \/ Len(a[1]) = 0 \/ REq(MMaxAbs(MSub(a, b)), Zero))

Regime(g, e, k) ==
    LET m == e.models[k]
        w == RegimeWeights(e.labels, k)
        n == Count(e.labels, k)
        R == TLCEval([t \in 1..NOut(g) |-> IF e.labels[t] = k - 1 THEN e.residuals[t] ELSE [c \in 1..D(g) |-> Zero]])
    IN IF ~ModelShape(g, m) THEN {"wrong-shape"}
       ELSE IF n = 0 THEN {}
       ELSE IF ~ModelFin(g, m) THEN {"not-finite"}
       ELSE
       (IF Optimal(g, m, w, "1e-10") THEN {} ELSE {"regime-is-not-the-regression-over-its-samples"})
       \cup (IF \A t \in 1..NOut(g) : e.labels[t] # k - 1
                    \/ VNear(e.residuals[t], Residual(g, m, First(g) + t), ResidualTol(g, m))
             THEN {} ELSE {"residuals-do-not-refer-to-the-same-samples"})
       \cup (IF ~IsShape(e.sigma[k], D(g), D(g)) THEN {"covariance-shape"}
             ELSE IF CovarianceIs(e.sigma[k], R, w, RFrac(n - NCoef(g), 1), "1e-9")
             THEN {} ELSE {"covariance-is-not-the-cross-product-per-degree-of-freedom"})

FitClauses(e) ==
    LET g == e.series IN
    IF Len(e.labels) # NOut(g) \/ ~IsShape(e.residuals, NOut(g), D(g)) THEN {"wrong-shape"}
    ELSE IF ~MFin(e.residuals) THEN {"not-finite"}
    ELSE
    (IF SameRows(e.clustered, Joined(g)) \/ SameRows(e.clustered, Swap(g)) THEN {} ELSE {"clustered-rows-misaligned"})
    \cup (IF SameRows(e.learned, PredictorRows(g)) THEN {} ELSE {"classifier-taught-on-other-predictors"})
    \cup (IF e.taught = e.clusters THEN {} ELSE {"classifier-taught-other-labels"})
    \cup (IF SameRows(e.classified, PredictorRows(g)) THEN {} ELSE {"classified-other-predictors"})
    \cup (IF e.labels = e.classes THEN {} ELSE {"labels-are-not-the-classifiers"})
    \cup UNION {Regime(g, e, k) : k \in 1..Len(e.models)}
    \cup (IF Len(e.models) = T.n THEN {} ELSE {"wrong-shape"})
TransformClauses(e) ==
    LET g == e.series IN
    (IF SameRows(e.classified, PredictorRows(g)) THEN {} ELSE {"classified-other-predictors"})
    \cup (IF e.labels = e.classes THEN {} ELSE {"labels-are-not-the-classifiers"})
    \cup (IF e.kept THEN {} ELSE {"transform-changed-the-model"})
Event(e) ==
    IF e.outcome # "ok" THEN {"raised " \o e.outcome}
    ELSE (IF e.op = "fit" THEN FitClauses(e) ELSE TransformClauses(e))
         \cup (IF e.unchanged THEN {} ELSE {"input-modified"})

Step == /\ i < Len(T.events) /\ bad = {}
        /\ bad' = Event(T.events[i + 1])
        /\ i' = i + 1 /\ UNCHANGED tr
Done == bad # {} \/ i = Len(T.events)
End == /\ Done /\ i >= 0
       /\ i' = -1
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad>>
TraceNext == (i >= 0 /\ Step) \/ End
==============================================================================
