------------------------------ MODULE FembvTrace ------------------------------
(***************************************************************************)
(* Recorded FEM-BV fits: parameters, then affiliations, in turn.  A trace  *)
(* holds the problem, which of the two are updated, and the state after    *)
(* 0, 1, ... iterations, with the multipliers that witness the optimality  *)
(* of the affiliations of each iteration.  With first = FALSE the initial  *)
(* state is not known and only its place is held.                          *)
(***************************************************************************)
EXTENDS Fembv, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, it, phase, bad
vars == <<tr, it, phase, bad>>
T  == Traces[tr]
Pr == T.problem
Checks == {T.checks[i] : i \in 1..Len(T.checks)}
State(i) == T.states[i + 1]
Iterations == Len(T.states) - 1
\* parameters of the next, affiliations of this iteration
Half(i) == [State(i + 1) EXCEPT !.G = State(i).G]

FinState(s) == /\ MFin(s.mu) /\ MFin(s.G)
               /\ \A j \in 1..Len(s.A) : \A l \in 1..Len(s.A[j]) : MFin(s.A[j][l])
               /\ \A j \in 1..Len(s.B) : MFin(s.B[j])
ShapeOf(s) ==
    /\ IsShape(s.mu, NComp(Pr), Dim(Pr)) /\ IsShape(s.G, NRows(Pr), NComp(Pr))
    /\ (MaxMem(Pr) > 0 => Len(s.A) = NComp(Pr))
    /\ \A j \in 1..Len(s.A) : Len(s.A[j]) = MaxMem(Pr) /\ \A l \in 1..Len(s.A[j]) : IsShape(s.A[j][l], Dim(Pr), Dim(Pr))
    /\ (Pr.U # <<>> => Len(s.B) = NComp(Pr))
    /\ \A j \in 1..Len(s.B) : IsShape(s.B[j], Dim(Pr), Len(Pr.U[1]))
SameParameters(a, b) == a.mu = b.mu /\ a.A = b.A /\ a.B = b.B

TraceInit == tr \in 1..Len(Traces) /\ it = 0 /\ phase = "start" /\ bad = {}

Lowest == IF T.first THEN 0 ELSE 1
Start == /\ phase = "start" /\ bad = {}
         /\ bad' = (IF T.error # "" THEN {T.error}
                    ELSE IF \E i \in Lowest..Iterations : ~ShapeOf(State(i)) THEN {"wrong-shape"}
                    ELSE IF \E i \in Lowest..Iterations : ~FinState(State(i)) THEN {"not-finite"} ELSE {})
         /\ phase' = "parameters"
         /\ UNCHANGED <<tr, it>>

Parameters ==
    /\ phase = "parameters" /\ bad = {} /\ it < Iterations
    /\ phase' = "weights"
    /\ bad' = (IF ~T.first /\ it = 0 THEN {}
               ELSE IF ~T.up
               THEN (IF "frozen" \in Checks /\ ~SameParameters(State(it), State(it + 1))
                     THEN {"parameters-changed-although-frozen"} ELSE {})
               ELSE (IF "normal" \in Checks
                     THEN {"component-parameters-not-optimal" : j \in {c \in 1..NComp(Pr) : ~NormalEquations(Pr, State(it + 1), State(it).G, c, "1e-10")}}
                     ELSE {})
                    \cup (IF "descent" \in Checks /\ ~RLeq(RSub(Cost(Pr, Half(it)), Cost(Pr, State(it))),
                                                           Rounding(Pr, Distances(Pr, State(it))))
                          THEN {"parameter-update-worsens-the-objective"} ELSE {}))
    /\ UNCHANGED <<tr, it>>

Weights ==
    /\ phase = "weights" /\ bad = {}
    /\ phase' = "parameters" /\ it' = it + 1
    /\ LET new == State(it + 1)
           D   == Distances(Pr, new)
       IN bad' =
           (IF T.first \/ it > 0
            THEN IF ~T.uw \/ NComp(Pr) = 1
                 THEN (IF "frozen" \in Checks /\ new.G # State(it).G THEN {"affiliations-changed-although-frozen"} ELSE {})
                 ELSE (IF "descent" \in Checks /\ WithinBound(State(it).G, Pr.tv, "1e-9")
                          /\ ~RLeq(RSub(MDot(new.G, D), MDot(State(it).G, D)), DistanceTol(Pr, D))
                       THEN {"affiliation-update-worsens-the-objective"} ELSE {})
            ELSE {})
           \cup (IF "stochastic" \in Checks /\ ~RowStochastic(new.G, Zero, "1e-6") THEN {"affiliations-not-stochastic"} ELSE {})
           \cup (IF "tv" \in Checks /\ T.uw /\ NComp(Pr) > 1 /\ ~WithinBound(new.G, Pr.tv, RMul("1e-6", RFrac(NRows(Pr), 1)))
                 THEN {"variation-exceeds-the-bound"} ELSE {})
           \cup (IF "optimal" \in Checks /\ T.uw /\ NComp(Pr) > 1 /\ ~OptimalFor(Pr, new.G, D, T.duals[it + 2], Pr.tv)
                 THEN {"affiliations-not-optimal"} ELSE {})
           \cup (IF "best" \in Checks /\ ~RLeq(MDot(new.G, T.dist), RAdd(T.best, LPTol(T.dist)))
                 THEN {"a-switching-path-is-better"} ELSE {})
           \cup (IF "cost" \in Checks /\ T.costs[it + 2] # "none"
                    /\ (~RFin(T.costs[it + 2]) \/ ~RNear(T.costs[it + 2], MDot(new.G, D), Rounding(Pr, D)))
                 THEN {"cost-is-not-the-objective"} ELSE {})
    /\ UNCHANGED tr

Done == bad # {} \/ (phase = "parameters" /\ it = Iterations)
End == /\ Done /\ phase # "end"
       /\ phase' = "end"
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, it, bad>>
TraceNext == Start \/ Parameters \/ Weights \/ End
==============================================================================
