----------------------------- MODULE LineSearchMC ----------------------------
(***************************************************************************)
(* The backtracking loop run against an adversary that picks the objective *)
(* value found at every trial step.  Whatever it answers, the trial steps  *)
(* decrease strictly and the search ends: by a sufficient decrease or by a *)
(* step below the step tolerance.  The rejected trials are written out and *)
(* replayed into the code.                                                 *)
(***************************************************************************)
EXTENDS SPG, TLC, IOUtils, CSV, Json

CONSTANTS Depth,        \* trials after which only decreasing answers come (state bound)
          S1Num, S1Den  \* lower safeguard
S1 == RFrac(S1Num, S1Den)
S2 == "0.9"
Gamma == "1e-4"
Tol == "1e-3"

Slopes  == {"-1e-3", "-1", "-40"}
\* objective minus its start value, relative to the slope
Answers == {"-0.5", "-1e-4", "-0.9e-4", "0", "0.05", "0.5", "1", "4", "17/3", "100"}

VARIABLES step, slope, trials, pc, last
vars == <<step, slope, trials, pc, last>>

Init == /\ step = One /\ trials = 0 /\ pc = "try" /\ last = <<>>
        /\ slope \in Slopes

Value(a) == RMul(a, RAbs(slope))
Accept == /\ pc = "try" /\ \E a \in Answers : ~Rejected(step, slope, Zero, RMul(Value(a), step), Gamma)
          /\ pc' = "accepted" /\ UNCHANGED <<step, slope, trials, last>>
Reject(a) ==
    LET f == Value(a)
        n == NextStep(step, slope, Zero, f, S1, S2)
    IN  /\ pc = "try" /\ Rejected(step, slope, Zero, f, Gamma)
        /\ trials < Depth \/ a = "100"
        /\ step' = n /\ trials' = trials + 1
        /\ pc' = IF RLt(n, Tol) THEN "given-up" ELSE "try"
        /\ last' = <<step, slope, f, n>>
        /\ CSVWrite("%1$s", <<ToJson([step |-> step, delta |-> slope, fnew |-> f, value |-> n])>>, IOEnv.OUT)
        /\ UNCHANGED slope
Next == Accept \/ \E a \in Answers : Reject(a)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Positive  == RLt(Zero, step)
Shrinks   == last # <<>> => RLt(last[4], last[1]) /\ RLeq(last[4], RMul(S2, last[1]))
Minimiser == last # <<>> /\ RLeq(S1, step) /\ ~REq(step, RMul("0.5", last[1])) =>
    \* the quadratic's derivative vanishes at the new step
    LET st == last[1] d == last[2] f == last[3]
        c2 == RDiv(RSub(f, RMul(st, d)), RMul(st, st))
    IN  REq(RAdd(d, RMul("2", RMul(c2, step))), Zero)
Bounded   == trials <= 66     \* 0.9^66 < 1e-3
Ends      == <>(pc # "try")
==============================================================================
