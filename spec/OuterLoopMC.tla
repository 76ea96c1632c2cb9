------------------------------ MODULE OuterLoopMC ------------------------------
(***************************************************************************)
(* The outer loop step by step, over all small cost sequences.             *)
(***************************************************************************)
EXTENDS OuterLoop, FiniteSets, TLC

CONSTANTS Values, Limit
Tolerances == {"0", "1/2", "1", "2", "100"}
VARIABLES costs, tol, limit, j, status,   \* status: "run" | "met" | "limit"
          rows, met                       \* what has been reported
vars == <<costs, tol, limit, j, status, rows, met>>

Init == /\ costs \in {<<ToString(v)>> : v \in Values}
        /\ tol \in Tolerances /\ limit \in 1..Limit
        /\ j = 0 /\ status = "run" /\ rows = <<>> /\ met = <<>>
Iterate == /\ status = "run"
           /\ \E v \in Values :
                /\ costs' = Append(costs, ToString(v))
                /\ j' = j + 1
                /\ status' = IF RLt(RAbs(RSub(costs'[j + 2], costs[j + 1])), tol) THEN "met"
                             ELSE IF j + 1 = limit THEN "limit" ELSE "run"
                /\ rows' = Append(rows, [n |-> j', cost |-> costs'[j + 2],
                                        change |-> RSub(costs'[j + 2], costs[j + 1])])
                /\ met' = IF status' = "met" THEN Append(met, j') ELSE met
           /\ UNCHANGED <<tol, limit>>
Spec == Init /\ [][Iterate]_vars /\ WF_vars(Iterate)

Warned == status = "limit" /\ RLt(Zero, tol)
\* what recorded fits are judged by is what the loop does
Agrees == status # "run" => Outcomes(costs, tol, limit, Zero, 1) = {<<j, Warned>>}
\* the warning says exactly that no iteration met a positive tolerance
Truthful == status # "run" =>
    (Warned <=> RLt(Zero, tol) /\ \A i \in 1..j : ~Meets(costs, i, tol, Zero))
First == \A i \in 1..(j - 1) : ~Meets(costs, i, tol, Zero)
\* the report is complete at every moment, and what recorded reports are judged by
Reported == rows = ReportRows(costs, j)
                /\ met = IF status = "run" THEN <<>> ELSE Announced(tol, j, Warned)
\* the report alone tells the costs and why the loop ended
Sums == j > 0 => REq(costs[1], VSum(<<rows[j].cost>> \o [r \in 1..j |-> RNeg(rows[r].change)]))
WithinLimit == j <= limit
Ends == <>(status # "run")
==============================================================================
