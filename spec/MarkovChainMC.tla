----------------------------- MODULE MarkovChainMC -----------------------------
(***************************************************************************)
(* All label sequences, read sample by sample with running counts.         *)
(***************************************************************************)
EXTENDS MarkovChain, IOUtils, Json, CSV
CONSTANTS K, N
VARIABLES labels, count, left
vars == <<labels, count, left>>
Init == /\ labels \in {<<i>> : i \in 1..K}
        /\ count = [i \in 1..K |-> [j \in 1..K |-> 0]] /\ left = [i \in 1..K |-> 0]
Read(j) == LET i == labels[Len(labels)] IN
    /\ labels' = Append(labels, j)
    /\ count' = [count EXCEPT ![i][j] = @ + 1]
    /\ left' = [left EXCEPT ![i] = @ + 1]
    /\ CSVWrite("%1$s", <<ToJson([labels |-> labels'])>>, IOEnv.OUT)
Next == Len(labels) < N /\ \E j \in 1..K : Read(j)

Entry(j, i) == IF left[i] = 0 THEN (IF i = j THEN One ELSE Zero) ELSE RFrac(count[i][j], left[i])
Agrees == \A i, j \in 1..K : REq(Entry(j, i), Fraction(labels, j, i))
Columns == LET M == Matrix(labels, K) IN
    \A i \in 1..K : REq(VSum([j \in 1..K |-> M[j][i]]), One) /\ \A j \in 1..K : RLeq(Zero, M[j][i])
Distribution == LET M == Matrix(labels, K) IN \A h \in 0..3 : \A i \in 1..K :
    LET v == After(M, Indicator(i, K), h) IN REq(VSum(v), One) /\ RLeq(Zero, VMin(v))
\* a cluster that is never left stays where it is
Absorbing == \A i \in 1..K : left[i] = 0 => VNear(After(Matrix(labels, K), Indicator(i, K), 3), Indicator(i, K), "0")
==============================================================================
