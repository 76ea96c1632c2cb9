------------------------------- MODULE InitTrace -------------------------------
(***************************************************************************)
(* Initial guesses: the factors of a fit before its first update, against  *)
(* what was requested.  A dictionary from FurthestSum has to be the end of *)
(* a behaviour of FurthestSum on the distances between the samples, from   *)
(* the requested start (any allowed one if none was requested).  Samples   *)
(* are compared by value, so repeated samples stand for each other.        *)
(***************************************************************************)
EXTENDS FurthestSum, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, bad
vars == <<fsvars, tr, bad>>
T == Traces[tr]
Set(s) == {s[i] : i \in 1..Len(s)}

\* Euclidean distances of samples, distances of a kernel
PosRoot(a) == RTrim(RSqrt(RMax(a, Zero)))
Euclid(X) == LET n == Len(X) IN
    TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
        LET e == VSub(X[i], X[j]) IN PosRoot(VDot(e, e))])])
KernelDist(K) == LET n == Len(K) IN
    TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
        PosRoot(RSub(RAdd(K[i][i], K[j][j]), RMul(Two, K[i][j])))])])
AllDistances == TLCEval([t \in 1..Len(Traces) |->
    IF ~Traces[t].fs THEN <<>>
    ELSE IF Traces[t].kernel THEN KernelDist(Traces[t].X) ELSE Euclid(Traces[t].X)])
TraceMatrix(t) == AllDistances[t]
\* computed distances are off by up to the root of the rounding of squares
Squares(t) == IF t.kernel THEN VMax([i \in 1..Len(t.X) |-> RAbs(t.X[i][i])])
              ELSE VMax([i \in 1..Len(t.X) |-> VDot(t.X[i], t.X[i])])
Slack(t) == RMul(RFrac(t.k + 2 * t.extra + 1, 1), RSqrt(RMul("1e-14", Squares(t))))

----------------------------------------------------------------------------
Stochastic(M, n, m) == /\ IsShape(M, n, m) /\ MFin(M)
                       /\ \A i \in 1..n : RLeq(Zero, VMin(M[i])) /\ RNear(VSum(M[i]), One, "1e-12")
\* the fits that show their initial guess may move it by rounding
Tiny == "1e-14"
Close(e, size) == RLeq(e, RMul(Tiny, RAdd(One, size)))
Same(a, b) == SameShape(a, b) /\ MFin(a) /\ (Len(a) = 0 \/ Close(MMaxAbs(MSub(a, b)), MMaxAbs(b)))
SameV(a, b) == Len(a) = Len(b) /\ VFin(a) /\ Close(VMaxAbs(VSub(a, b)), VMaxAbs(b))
EqRow(a, b) == Close(VMaxAbs(VSub(a, b)), VMaxAbs(b))
Occurs(M, v) == Cardinality({i \in 1..Len(M) : EqRow(M[i], v)})
n == Len(T.X)

\* what is asked of each factor: "given", "stochastic", "rows" (samples), ...
Weights == CASE T.want.G = "given" -> (IF Same(T.G, T.given.G) THEN {} ELSE {"weights-are-not-the-given-ones"})
             [] T.want.G = "stochastic" -> (IF Stochastic(T.G, T.rows, T.k) THEN {} ELSE {"initial-weights-not-stochastic"})
             [] OTHER -> {}
Dictionary ==
    CASE T.want.D = "given" -> (IF Same(T.D, T.given.D) THEN {} ELSE {"dictionary-is-not-the-given-one"})
      [] T.want.D = "stochastic" -> (IF Stochastic(T.D, T.k, n) THEN {} ELSE {"initial-coefficients-not-stochastic"})
      [] T.want.D = "random" -> (IF ~(IsShape(T.D, T.k, Len(T.X[1])) /\ MFin(T.D)) THEN {"initial-dictionary-malformed"}
                                 ELSE IF T.generic /\ \E i \in 1..T.k : Occurs(T.X, T.D[i]) > 0
                                 THEN {"random-dictionary-made-of-samples"}
                                 ELSE IF T.generic /\ T.k > 1 /\ \E i \in 2..T.k : EqRow(T.D[i], T.D[1]) THEN {"random-dictionary-repeats-a-state"}
                                 ELSE {})
      [] T.want.D = "samples" -> (IF ~(IsShape(T.D, T.k, Len(T.X[1])) /\ MFin(T.D)) THEN {"initial-centroids-malformed"}
                                  ELSE IF \A i \in 1..T.k : Occurs(T.D, T.D[i]) <= Occurs(T.X, T.D[i])
                                  THEN {} ELSE {"centroids-are-not-distinct-samples"})
      [] T.want.D = "furthest" -> (IF T.kernel
                                   THEN (IF IsShape(T.D, T.k, n) /\ MFin(T.D) /\ \A i \in 1..T.k :
                                              Cardinality({j \in 1..n : RNear(T.D[i][j], One, Tiny)}) = 1
                                              /\ Cardinality({j \in 1..n : RNear(T.D[i][j], Zero, Tiny)}) = n - 1
                                         THEN {} ELSE {"dictionary-does-not-select-samples"})
                                   ELSE (IF IsShape(T.D, T.k, Len(T.X[1])) /\ MFin(T.D)
                                            /\ \A i \in 1..T.k : Occurs(T.X, T.D[i]) > 0
                                         THEN {} ELSE {"dictionary-not-made-of-samples"}))
      [] OTHER -> {}
Order == CASE T.want.L = "given" -> (IF SameV(T.L, T.given.L) THEN {} ELSE {"order-weights-are-not-the-given-ones"})
           [] T.want.L = "stochastic" -> (IF Stochastic(<<T.L>>, 1, T.lags) THEN {} ELSE {"initial-order-weights-not-stochastic"})
           [] OTHER -> {}
Transitions ==
    CASE T.want.P = "given" -> (IF Len(T.P) = Len(T.given.P) /\ \A l \in 1..Len(T.P) : Same(T.P[l], T.given.P[l])
                                THEN {} ELSE {"transition-matrices-are-not-the-given-ones"})
      [] T.want.P = "stochastic" -> (IF Len(T.P) = T.lags /\ \A l \in 1..Len(T.P) :
                                          IsShape(T.P[l], T.k, T.k) /\ Stochastic(MT(T.P[l]), T.k, T.k)
                                     THEN {} ELSE {"initial-transition-matrices-not-column-stochastic"})
      [] OTHER -> {}
Static == IF T.outcome # "ok" THEN {"raised " \o T.outcome}
          ELSE Weights \cup Dictionary \cup Order \cup Transitions
               \cup (IF T.unchanged THEN {} ELSE {"input-modified"})

----------------------------------------------------------------------------
\* the sample at position p of the selection is the one in the dictionary
Matches(p, i) == IF T.kernel THEN RNear(T.D[p][i + 1], One, Tiny) ELSE EqRow(T.D[p], T.X[i + 1])
Excl == Set(T.exclude)
Starts == IF T.start = "any" THEN (0..(n - 1)) \ Excl ELSE {T.startindex}
TraceInit == /\ tr \in 1..Len(Traces)
             /\ bad = Static
             /\ IF bad = {} /\ T.fs
                THEN \E s \in Starts : Start(tr, T.k, s, Excl, T.extra, Slack(T))
                ELSE /\ name = 0 /\ k = 0 /\ excl = {} /\ extra = 0 /\ slack = Zero
                     /\ sel = <<>> /\ q = <<>> /\ step = 0 /\ pc = "static"
Say(s) == CSVWrite("%1$s|%2$s", <<ToString(tr), s>>, IOEnv.VERDICTS)
Judge == /\ pc = "static" /\ pc' = "end"
         /\ Say(IF bad = {} THEN "accepted" ELSE ToString(bad))
         /\ UNCHANGED <<fixed, sel, q, step, tr, bad>>
Accept == /\ pc = "done" /\ pc' = "end"
          /\ Say(IF \A p \in 1..Len(sel) : Matches(p, sel[p]) THEN "accepted" ELSE "dictionary-is-not-a-furthest-sum-selection")
          /\ UNCHANGED <<fixed, sel, q, step, tr, bad>>
LastVisit(p) ==
    LET v == {s \in 0..(extra - 1) : (s % k) + 1 = p} IN
    IF v = {} THEN -1 ELSE CHOOSE s \in v : \A r \in v : r <= s
Viable == pc \in {"grow", "drop", "refill"} =>
    \A p \in 1..Len(sel) :
       (IF pc = "refill" /\ p = Position THEN TRUE
        ELSE IF LastVisit(p) < step THEN Matches(p, sel[p]) ELSE TRUE)
Dead == /\ ~Viable /\ pc' = "end"
        /\ Say("dictionary-is-not-a-furthest-sum-selection")
        /\ UNCHANGED <<fixed, sel, q, step, tr, bad>>
TraceNext == Judge \/ Accept \/ Dead
             \/ (pc \in {"grow", "drop", "refill"} /\ Viable /\ FSNext /\ UNCHANGED <<tr, bad>>)
==============================================================================
