------------------------------- MODULE FitTrace -------------------------------
(***************************************************************************)
(* Recorded fits of the factorisation models against the alternating       *)
(* scheme: dictionary, weights, parameters in turn, each block updated by  *)
(* a step of Factorisation.  A trace holds the problem, the options, the   *)
(* blocks being updated and the factors after 0, 1, ... iterations.  In a  *)
(* "long" trace only the first and the last factors of a fit of any number *)
(* of iterations are recorded, and the clauses about single updates rest.  *)
(***************************************************************************)
EXTENDS Factorisation, FiniteSets, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr,     \* trace
          it,     \* iterations completed
          blk,    \* next block of this iteration (index), 0: before the start
          al,     \* block -> spectral step
          folds,  \* block -> objective at the start of its updates
          base,   \* objective at the start of the iteration
          bad     \* clauses violated
vars == <<tr, it, blk, al, folds, base, bad>>

T      == Traces[tr]
Pr     == T.problem
Opt    == T.options
Checks == {T.checks[i] : i \in 1..Len(T.checks)}
Bs     == Blocks(Pr)
Active(b) == b \in {T.active[i] : i \in 1..Len(T.active)}
State(i) == T.states[i + 1]
\* the state when the blocks before the j-th have been updated
Mixed(i, j) ==
    LET RECURSIVE M(_)
        M(h) == IF h >= j THEN State(i) ELSE Put(M(h + 1), Bs[h], Get(State(i + 1), Bs[h]))
    IN M(1)
Feasible(s) == \A j \in 1..Len(Bs) : BlockFeasible(Pr, Bs[j], Get(s, Bs[j]), "1e-9")
SameShapes(a, b) == \A j \in 1..Len(Bs) :
    LET u == Get(a, Bs[j]) v == Get(b, Bs[j]) IN
    Len(u) = Len(v) /\ \A m \in 1..Len(u) : SameShape(u[m], v[m])
Finite(s) == \A j \in 1..Len(Bs) : \A m \in 1..Len(Get(s, Bs[j])) : MFin(Get(s, Bs[j])[m])

TraceInit == /\ tr \in 1..Len(Traces)
             /\ it = 0 /\ blk = 0 /\ bad = {} /\ base = Zero
             /\ al = [b \in {"D", "G", "P"} |-> [FirstAlpha EXCEPT !.known = ~T.long]]
             /\ folds = [b \in {"D", "G", "P"} |-> <<>>]
Iterations == Len(T.states) - 1
\* settings with which no search accepts a worse objective
Monotone == Opt.memory = 1 /\ RLeq(Zero, Opt.gamma)

\* Reported cost of the factors after i iterations.
CostClauses(i) ==
    IF "cost" \notin Checks \/ T.costs[i + 1] = "none" THEN {}
    ELSE IF ~RFin(T.costs[i + 1]) THEN {"cost-not-finite"}
    ELSE LET s == State(i) c == Cost(Pr, s) IN
         IF RNear(T.costs[i + 1], c, RAdd(RMul("1e-9", RAbs(c)), Eps(NSamples(Pr) * NSamples(Pr) + BSize(Get(s, "G")), CostScale(Pr, s))))
         THEN {} ELSE {"cost-is-not-the-objective"}

\* Well-formedness of the whole trace.
Start == /\ blk = 0 /\ bad = {}
         /\ bad' = (IF \E i \in 0..Iterations : ~SameShapes(State(i), State(0)) THEN {"wrong-shape"}
                    ELSE IF \E i \in 0..Iterations : ~Finite(State(i)) THEN {"not-finite"}
                    ELSE {})
                   \cup (IF T.error = "" THEN {} ELSE {T.error})
         /\ blk' = 1
         /\ base' = IF bad' = {} THEN Cost(Pr, State(0)) ELSE Zero
         /\ UNCHANGED <<tr, it, al, folds>>

CostErr(s, new) == Eps(NSamples(Pr) * NSamples(Pr) + BSize(Get(s, "G")), RAdd(CostScale(Pr, s), CostScale(Pr, new)))

FMax(b, fold) ==   \* the last o.memory objectives, zero before the first
    LET h == Append(folds[b], fold)
        m == Opt.memory
        w == SubSeq(h, Len(h) - (IF Len(h) < m THEN Len(h) ELSE m) + 1, Len(h))
    IN IF Len(h) < m THEN RMax(Zero, VMax(w)) ELSE VMax(w)

Update ==
    /\ bad = {} /\ blk \in 1..Len(Bs) /\ it < Iterations
    /\ LET b    == Bs[blk]
           s    == Mixed(it, blk)
           new  == Mixed(it, blk + 1)
           fold == Cost(Pr, s)
           fnew == Cost(Pr, new)
           err  == CostErr(s, new)
       IN IF ~Active(b)
          THEN /\ bad' = IF "frozen" \in Checks /\ Get(new, b) # Get(s, b) THEN {b \o "-changed-although-frozen"} ELSE {}
               /\ UNCHANGED <<al, folds>>
          ELSE /\ bad' = (IF "stochastic" \in Checks /\ ~BlockFeasible(Pr, b, Get(new, b), "1e-9")
                          THEN {b \o "-not-stochastic"} ELSE {})
                  \cup (IF ~T.long /\ "descent" \in Checks /\ Monotone /\ ~RLeq(RSub(fnew, fold), err)
                        THEN {b \o "-update-worsens-the-objective"} ELSE {})
                  \cup (IF ~T.long /\ Opt.guarded /\ "descent" \in Checks /\ ~RLeq(RSub(fnew, base), err)
                        THEN {b \o "-worse-than-the-iteration-start-without-RuntimeError"} ELSE {})
                  \cup (IF "step" \in Checks
                        THEN StepClauses(Pr, Opt, s, b, new, al[b], FMax(b, fold)) ELSE {})
               /\ al' = IF ~T.long /\ {"step", "stochastic"} \cap Checks # {} THEN [al EXCEPT ![b] = SpectralAfter(Pr, Opt, s, b, new, al[b])] ELSE al
               /\ folds' = [folds EXCEPT ![b] = Append(@, fold)]
    /\ blk' = blk + 1
    /\ UNCHANGED <<tr, it, base>>

EndIteration ==
    /\ bad = {} /\ blk = Len(Bs) + 1 /\ it < Iterations
    /\ bad' = CostClauses(it + 1)
              \cup (IF "descent" \in Checks /\ (Monotone \/ Opt.guarded)
                       /\ ~RLeq(RSub(Cost(Pr, State(it + 1)), base), CostErr(State(it), State(it + 1)))
                    THEN {"iteration-worsens-the-objective"} ELSE {})
    /\ it' = it + 1 /\ blk' = 1
    /\ base' = Cost(Pr, State(it + 1))
    /\ UNCHANGED <<tr, al, folds>>

\* A RuntimeError ("cost increased") after the last recorded iteration is
\* right only when some block of that iteration, done again without the
\* guard, worsens the objective.
RaisedClauses ==
    IF T.raised = <<>> THEN {}
    ELSE IF ~Opt.guarded THEN {"RuntimeError-although-not-required"}
    ELSE LET mix(j) == LET RECURSIVE W(_, _)
                           W(st, h) == IF h > j THEN st ELSE W(Put(st, Bs[h], Get(T.raised[1], Bs[h])), h + 1)
                       IN W(State(it), 1)
         IN IF \E j \in 1..Len(Bs) :
                 RLt(RSub(base, CostErr(State(it), mix(j))), Cost(Pr, mix(j)))
            THEN {} ELSE {"RuntimeError-although-nothing-worsens"}
Judge == /\ bad = {} /\ blk = 1 /\ it = Iterations
         /\ bad' = RaisedClauses
         /\ blk' = 99
         /\ UNCHANGED <<tr, it, al, folds, base>>

Done == bad # {} \/ blk = 99
End == /\ Done /\ blk # -1
       /\ blk' = -1
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, it, al, folds, base, bad>>
TraceNext == Start \/ Judge \/ Update \/ EndIteration \/ End
==============================================================================
