------------------------------- MODULE GramTrace -------------------------------
(***************************************************************************)
(* Histories of an archetypal analysis of data and of a kernel analysis of *)
(* the matrix its kernel function stands for, given the same requests.     *)
(***************************************************************************)
EXTENDS Factorisation, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
T == Traces[tr]
Ev == T.events[pos]

\* of an ok side: kernel problem of an event
Kernel(e) == IF T.gram THEN MMul(e.X, MT(e.X)) ELSE e.K
KProblem(e) == [kind |-> "aa", X |-> Kernel(e), es |-> Zero, ew |-> Zero, lags |-> <<>>]
St(a) == [D |-> a.D, G |-> a.G, L |-> <<>>, P |-> <<>>]
Formed(a, e) == /\ MFin(a.D) /\ MFin(a.G)
                /\ IsShape(a.D, T.k, Len(e.X)) /\ IsShape(a.G, Len(e.X), T.k)

Agree(a, b) ==
       (IF MNear(a.G, b.G, "1e-6") THEN {} ELSE {"weights-differ"})
  \cup (IF MNear(a.D, b.D, "1e-6") THEN {} ELSE {"coefficients-differ"})
  \cup (IF a.niter = b.niter THEN {} ELSE {"iteration-counts-differ"})
  \cup (IF ~RFin(a.cost) \/ ~RFin(b.cost) THEN {"cost-not-finite"}
        ELSE IF RNear(a.cost, b.cost, RMul("1e-6", RAdd(RAbs(a.cost), RAbs(b.cost)))) 
                \/ RNear(a.cost, b.cost, RMul("1e-10", Ev.scale)) THEN {} ELSE {"costs-differ"})
\* the cost of a fit is the error of reconstructing the data
Error(a, e) ==
    IF e.op # "fit" \/ T.delta THEN {}
    ELSE LET p == KProblem(e)
             tol == RMul("1e-10", CostScale(p, St(a)))
             R == MSub(e.X, MMul(a.G, MMul(a.D, e.X))) IN
         IF ~RFin(a.cost) THEN {}
         ELSE (IF RNear(a.cost, Cost(p, St(a)), tol) THEN {} ELSE {"cost-is-not-the-kernel-error"})
              \cup (IF T.gram /\ ~RNear(a.cost, MDot(R, R), tol) THEN {"cost-is-not-the-squared-error"} ELSE {})
Judge(e) ==
    IF e.a.outcome # e.b.outcome THEN {e.op \o ": data " \o e.a.outcome \o " kernel " \o e.b.outcome}
    ELSE (IF e.unchanged THEN {} ELSE {"input-modified"})
         \cup (IF e.a.outcome # "ok" THEN (IF e.a.outcome = "RuntimeError" THEN {} ELSE {"raised " \o e.a.outcome})
               ELSE IF ~Formed(e.a, e) \/ ~Formed(e.b, e) THEN {"malformed"}
               ELSE Agree(e.a, e.b) \cup Error(e.a, e))

Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(T.events)
        /\ bad' = bad \cup Judge(Ev)
        /\ pos' = pos + 1 /\ UNCHANGED tr
End == /\ pos = Len(T.events) + 1
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
TraceInit == Init
TraceNext == Step \/ End
==============================================================================
