------------------------------- MODULE VarxTrace -------------------------------
(***************************************************************************)
(* Recorded histories of a local VARX model: a series, and after every     *)
(* operation (an unweighted or weighted fit, parameters set by the caller, *)
(* a refused request) the state of the model.                              *)
(***************************************************************************)
EXTENDS Varx, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
T == Traces[tr]
G == T.series
TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {}

Ones == [k \in 1..NOut(G) |-> One]
Used(w) == SubSeq(w, First(G) + 1, Len(w))
ResidualsOf(e) == Rows(e.residuals, First(G) + 1, Len(e.residuals))
\* total weight minus one, or rows minus coefficients
Freedom(e) == IF e.op = "fit" THEN RFrac(NOut(G) - NCoef(G), 1) ELSE RSub(VSum(Used(e.w)), One)

ModelClauses(e) ==
    IF ~ModelShape(G, e.model) \/ ~IsShape(e.residuals, Len(G.y), D(G)) THEN {"wrong-shape"}
    ELSE IF ~ModelFin(G, e.model) \/ ~MFin(e.residuals) THEN {"not-finite"}
    ELSE
    (IF NOut(G) = 0 \/ MNear(ResidualsOf(e), ResidualRows(G, e.model), ResidualTol(G, e.model)) THEN {}
     ELSE {"residuals-are-not-sample-minus-fitted-value"})
    \cup (IF \A k \in 1..First(G) : REq(VMaxAbs(e.residuals[k]), Zero) THEN {} ELSE {"residual-before-the-first-predictable-sample"})
    \cup (IF e.op = "set" THEN (IF e.given = e.model THEN {} ELSE {"parameters-are-not-those-given"})
          ELSE LET w == IF e.op = "fit" THEN Ones ELSE Used(e.w) IN
               (IF NOut(G) = 0 \/ Optimal(G, e.model, w, "1e-10") THEN {} ELSE {"not-the-least-squares-solution"})
               \cup (IF NOut(G) = 0 THEN {}
                     ELSE IF ~IsShape(e.sigma, D(G), D(G)) THEN {"covariance-shape"}
                     ELSE IF CovarianceIs(e.sigma, ResidualsOf(e), w, Freedom(e), "1e-9") THEN {} ELSE {"covariance-is-not-the-cross-product-per-degree-of-freedom"}))

Event(e) ==
    IF e.op = "refuse" THEN
        (IF e.outcome = "ValueError" THEN {} ELSE {"not-refused-with-a-ValueError"})
        \cup (IF e.kept THEN {} ELSE {"changed-by-a-refused-call"})
    ELSE IF e.outcome # "ok" THEN {"raised " \o e.outcome}
    ELSE ModelClauses(e) \cup (IF e.unchanged THEN {} ELSE {"input-modified"})
Step == /\ i < Len(T.events) /\ bad = {}
        /\ bad' = Event(T.events[i + 1])
        /\ i' = i + 1 /\ UNCHANGED tr
Done == bad # {} \/ i = Len(T.events)
End == /\ Done /\ i >= 0
       /\ i' = -1
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad>>
TraceNext == (i >= 0 /\ Step) \/ End
==============================================================================
