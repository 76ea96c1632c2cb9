------------------------------- MODULE OuterLoop -------------------------------
(***************************************************************************)
(* The outer loop of every iterative fit.  costs[j + 1] is the objective   *)
(* after j iterations; the loop ends at the first iteration that changes   *)
(* it by less than the tolerance, or at the iteration limit.               *)
(***************************************************************************)
EXTENDS Rat

Change(costs, j) == RAbs(RSub(costs[j + 1], costs[j]))
\* iteration j meets the tolerance: surely, or possibly when costs are only
\* known up to err
Meets(costs, j, tol, err)    == RLt(RAdd(Change(costs, j), err), tol)
MayMeet(costs, j, tol, err)  == RLt(Zero, tol) /\ RLt(RSub(Change(costs, j), err), tol)

\* outcomes <<iterations performed, warned>> of a loop from iteration j on
RECURSIVE Outcomes(_, _, _, _, _)
Outcomes(costs, tol, limit, err, j) ==
    LET met    == IF MayMeet(costs, j, tol, err) THEN {<<j, FALSE>>} ELSE {}
        unmet  == IF Meets(costs, j, tol, err) THEN {}
                  ELSE IF j = limit THEN {<<j, RLt(Zero, tol)>>}
                  ELSE Outcomes(costs, tol, limit, err, j + 1)
    IN met \cup unmet

\* what a loop of n iterations reports: a row for each, and the iteration at
\* which the tolerance was met
ReportRows(costs, n) == [r \in 1..n |-> [n |-> r, cost |-> costs[r + 1],
                                    change |-> RSub(costs[r + 1], costs[r])]]
Announced(tol, n, warned) == IF RLt(Zero, tol) /\ ~warned THEN <<n>> ELSE <<>>
==============================================================================
