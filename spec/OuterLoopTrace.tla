----------------------------- MODULE OuterLoopTrace ----------------------------
(***************************************************************************)
(* Fits of one problem with different tolerances and limits, against the   *)
(* objective after 0, 1, 2, ... iterations.  The costs are the reported    *)
(* ones, or are evaluated from recorded factors (states not empty).        *)
(***************************************************************************)
EXTENDS OuterLoop, Factorisation, Json, CSV, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, costs, bad
vars == <<tr, i, costs, bad>>
T == Traces[tr]

TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ costs = <<>> /\ bad = {}
Start == /\ i = 0
         /\ bad' = IF T.error # "" THEN {T.error}
                   ELSE IF T.states = <<>> /\ ~VFin(T.costs) THEN {"cost-not-finite"} ELSE {}
         /\ costs' = IF bad' # {} THEN <<>> ELSE IF T.states = <<>> THEN T.costs
                     ELSE [m \in 1..Len(T.states) |-> Cost(T.problem, T.states[m])]
         /\ i' = 1 /\ UNCHANGED tr
\* rounding of the reported costs
Err == RAdd(RMul("1e-11", VMaxAbs(costs)), RMul("1e-11", T.size))
Run == /\ i \in 1..Len(T.runs) /\ costs # <<>>
       /\ LET r == T.runs[i]
              out == Outcomes(costs, r.tol, r.limit, Err, 1)
              fits == {o \in out : o[2] = r.warned
                        /\ (r.cost = "none" \/ (RFin(r.cost) /\ RNear(r.cost, costs[o[1] + 1], RMul(Two, Err))))}
          IN bad' = bad \cup
             (IF r.outcome # "ok" THEN {"raised " \o r.outcome}
              ELSE IF \A o \in out : o[2] # r.warned THEN {IF r.warned THEN "warned-although-the-tolerance-was-met" ELSE "no-warning-at-the-limit"}
              ELSE IF fits = {} THEN {"stopped-at-another-iteration"}
              ELSE IF r.niter = -1 \/ \E o \in fits : r.niter = o[1] THEN {}
              ELSE IF \E o \in fits : r.niter = o[1] - 1 THEN {"n_iter-is-one-less-than-performed"}
              ELSE {"n_iter-is-not-the-number-performed"})
       /\ i' = i + 1 /\ UNCHANGED <<tr, costs>>
Done == i > 0 /\ (i > Len(T.runs) \/ costs = <<>>)
End == /\ Done /\ i # 1000000
       /\ i' = 1000000
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, costs, bad>>
TraceNext == Start \/ Run \/ End
==============================================================================
