------------------------------ MODULE MarkovChain ------------------------------
(***************************************************************************)
(* The transition matrix of a label sequence (labels 1..k): entry [j][i]   *)
(* is the fraction of the departures from i that go to j; a cluster that   *)
(* is never left keeps its probability.                                    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

Departures(labels, i)  == Cardinality({t \in 1..(Len(labels) - 1) : labels[t] = i})
Moves(labels, i, j)    == Cardinality({t \in 1..(Len(labels) - 1) : labels[t] = i /\ labels[t + 1] = j})
Fraction(labels, j, i) == IF Departures(labels, i) = 0 THEN (IF i = j THEN One ELSE Zero)
                          ELSE RFrac(Moves(labels, i, j), Departures(labels, i))
Matrix(labels, k) == TLCEval([j \in 1..k |-> TLCEval([i \in 1..k |-> Fraction(labels, j, i)])])
Indicator(i, k) == [j \in 1..k |-> IF j = i THEN One ELSE Zero]
\* distribution after h steps from cluster i
RECURSIVE After(_, _, _)
After(M, v, h) == IF h = 0 THEN v ELSE After(M, MMul(<<v>>, MT(M))[1], h - 1)
==============================================================================
