-------------------------------- MODULE FembvMC -------------------------------
(***************************************************************************)
(* All affiliation sequences on a grid, for all small integer distance     *)
(* matrices and bounds, built sample by sample.  Checks weak duality (no   *)
(* sequence within the bound costs less than the lower bound of any grid   *)
(* of multipliers) and writes every problem with its best sequence, to be  *)
(* replayed into the code.  Distances of the second and later components   *)
(* are relative to the first; affiliations are in halves.                  *)
(***************************************************************************)
EXTENDS Fembv, IOUtils, Json, CSV

CONSTANTS N, K, Values, Doubles,   \* Doubles: twice the bounds
          Slice, Slices

RowGrid == {g \in [1..K -> 0..2] : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + g[i] IN S(K) = 2}
DRows == {d \in [1..K -> Values] : d[1] = 1}
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES dist, bound, path, used
vars == <<dist, bound, path, used>>

RECURSIVE CostOf(_, _, _)
CostOf(d, g, t) == IF t = 0 THEN 0 ELSE
    LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + d[t][j] * g[t][j] IN CostOf(d, g, t - 1) + S(K)

Feasible(g, b) == \A j \in 1..K :
    LET RECURSIVE V(_) V(i) == IF i < 2 THEN 0 ELSE V(i - 1) + Abs(g[i][j] - g[i - 1][j]) IN V(N) <= b
Sequences == [1..N -> RowGrid]
FeasibleOf == [b \in Doubles |-> {g \in Sequences : Feasible(g, b)}]
Best(d, b) == LET cs == {CostOf(d, g, N) : g \in FeasibleOf[b]} IN CHOOSE c \in cs : \A e \in cs : c <= e

Code(d) == LET RECURSIVE C(_, _)
               C(t, j) == IF t = 0 THEN 0 ELSE IF j = 0 THEN C(t - 1, K) ELSE 7 * C(t, j - 1) + 3 * d[t][j] + t
           IN C(N, K)
Init == /\ dist \in {d \in [1..N -> DRows] : Code(d) % Slices = Slice}
        /\ bound \in Doubles
        /\ path = <<>> /\ used = [j \in 1..K |-> 0]
        /\ CSVWrite("%1$s", <<ToJson([dist |-> dist, bound |-> bound, best |-> Best(dist, bound)])>>, IOEnv.OUT)
Next == /\ Len(path) < N
        /\ \E g \in RowGrid :
             /\ path' = Append(path, g)
             /\ used' = IF path = <<>> THEN used ELSE [j \in 1..K |-> used[j] + Abs(g[j] - path[Len(path)][j])]
             /\ \A j \in 1..K : used'[j] <= bound
        /\ UNCHANGED <<dist, bound>>

R(i) == ToString(i)
Multipliers == {[t \in 1..(N - 1) |-> [j \in 1..K |-> IF j = 1 THEN RNeg(R(m[t])) ELSE R(m[t])]] : m \in [1..(N - 1) -> {0, 1, 3}]}
\* weak duality
Duality == Len(path) = N =>
    LET D == [t \in 1..N |-> [j \in 1..K |-> R(dist[t][j])]] IN
    \A q \in Multipliers : RLeq(RMul(Two, LowerBound(D, q, RFrac(bound, 2))), R(CostOf(dist, path, N)))
\* what was written is attained from below by no sequence
BestIsLeast == Len(path) = N => CostOf(dist, path, N) >= Best(dist, bound)
\* a variation constraint is never a dead end: staying is always possible
CanStay == Len(path) < N => ENABLED Next
==============================================================================
