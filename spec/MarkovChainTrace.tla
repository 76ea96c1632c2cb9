---------------------------- MODULE MarkovChainTrace ---------------------------
(***************************************************************************)
(* Recorded k-means Markov models.  labels (from 1), matrix and centres of *)
(* a fitted model; wanted: the intended partition (<<>> without);          *)
(* predictions [horizon, Y, values]; transforms [Y, values]; and the       *)
(* results of fitting by other methods of an equal model.                  *)
(***************************************************************************)
EXTENDS MarkovChain, IOUtils, Json, CSV
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, stage, bad
vars == <<tr, stage, bad>>
T == Traces[tr]
K == Len(T.centers)
N == Len(T.X)

Distance2(x, c) == LET d == VSub(x, c) IN VDot(d, d)
\* the centres closest to x, up to rounding
Nearest(x) ==
    LET d == TLCEval([c \in 1..K |-> Distance2(x, T.centers[c])])
        tol == RMul("1e-9", RAdd(VMax(d), VDot(x, x)))
    IN {c \in 1..K : RLeq(d[c], RAdd(VMin(d), tol))}
Form ==
    IF ~(Len(T.labels) = N /\ \A t \in 1..N : T.labels[t] \in 1..K) THEN {"labels-malformed"}
    ELSE IF ~IsShape(T.matrix, K, K) THEN {"matrix-malformed"}
    ELSE IF ~MFin(T.matrix) \/ ~MFin(T.centers) THEN {"not-finite"}
    ELSE IF K # T.k THEN {"wrong-number-of-clusters"} ELSE {}
Fitted ==
    (IF MNear(T.matrix, Matrix(T.labels, K), "1e-12") THEN {} ELSE {"matrix-is-not-the-observed-fractions"})
    \cup (IF T.wanted = <<>> \/ \A a, b \in 1..N : (T.wanted[a] = T.wanted[b]) <=> (T.labels[a] = T.labels[b])
          THEN {} ELSE {"labels-do-not-follow-the-clusters"})
    \cup (IF T.wanted = <<>> \/ \A t \in 1..N : T.labels[t] \in Nearest(T.X[t]) THEN {} ELSE {"label-is-not-the-nearest-centre"})
Prediction(p) ==
    IF p.outcome # "ok" THEN {"predict raised " \o p.outcome}
    ELSE IF ~IsShape(p.values, Len(p.Y), K) \/ ~MFin(p.values) THEN {"prediction-malformed"}
    ELSE IF \A t \in 1..Len(p.Y) : \E c \in Nearest(p.Y[t]) :
              VNear(p.values[t], After(T.matrix, Indicator(c, K), p.horizon), "1e-9")
         THEN {} ELSE {"prediction-is-not-the-iterated-matrix"}
Transform(p) ==
    IF p.outcome # "ok" THEN {"transform raised " \o p.outcome}
    ELSE IF ~IsShape(p.values, Len(p.Y), K) \/ ~MFin(p.values) THEN {"distances-malformed"}
    ELSE IF \A t \in 1..Len(p.Y) : \A c \in 1..K :
              /\ RLeq(Zero, p.values[t][c])
              /\ RNear(RMul(p.values[t][c], p.values[t][c]), Distance2(p.Y[t], T.centers[c]),
                       RMul("1e-9", RAdd(VDot(p.Y[t], p.Y[t]), VDot(T.centers[c], T.centers[c]))))
         THEN {} ELSE {"not-the-distances-to-the-centres"}
Other(o) ==
    IF o.outcome # "ok" THEN {o.method \o " raised " \o o.outcome}
    ELSE IF o.labels = T.labels /\ MNear(o.matrix, T.matrix, "1e-12") /\ MNear(o.centers, T.centers, "1e-9")
         THEN {} ELSE {o.method \o "-disagrees-with-fit"}
Inertia ==
    LET sum == VSum([t \in 1..N |-> RMul(T.weights[t], Distance2(T.X[t], T.centers[T.labels[t]]))])
    IN IF RNear(T.inertia, sum, RMul("1e-8", RAdd("1e-12", RAdd(sum, MDot(T.X, T.X))))) THEN {} ELSE {"inertia-is-not-the-summed-distance"}

TraceInit == tr \in 1..Len(Traces) /\ stage = "form" /\ bad = {}
Check == /\ stage = "form"
         /\ bad' = IF T.error # "" THEN {T.error} ELSE Form
         /\ stage' = IF bad' # {} THEN "done" ELSE "content"
         /\ UNCHANGED tr
Content == /\ stage = "content"
           /\ bad' = Fitted \cup Inertia
                     \cup UNION {Prediction(T.predictions[i]) : i \in 1..Len(T.predictions)}
                     \cup UNION {Transform(T.transforms[i]) : i \in 1..Len(T.transforms)}
                     \cup UNION {Other(T.others[i]) : i \in 1..Len(T.others)}
           /\ stage' = "done" /\ UNCHANGED tr
End == /\ stage = "done" /\ stage' = "end"
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad>>
TraceNext == Check \/ Content \/ End
==============================================================================
