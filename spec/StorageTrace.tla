----------------------------- MODULE StorageTrace -----------------------------
(***************************************************************************)
(* The same requests on the same numbers, stored in different ways: the    *)
(* results of every run are those of the first, to rounding.               *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, run, bad
vars == <<tr, run, bad>>
T == Traces[tr]
Base == T.runs[1]

\* a result: name, shape, entries
Finite(v) == SelectSeq(v, RFin)
SameResult(a, b) ==
    /\ a.name = b.name /\ a.shape = b.shape /\ Len(a.flat) = Len(b.flat)
    /\ \A i \in 1..Len(a.flat) : RFin(a.flat[i]) = RFin(b.flat[i]) /\ (RFin(a.flat[i]) \/ a.flat[i] = b.flat[i])
    /\ LET x == Finite(a.flat) y == Finite(b.flat) IN
       Len(x) = 0 \/ VNear(x, y, RMul("1e-6", RMax(T.scale, VMaxAbs(x))))
Step(q, i) ==      \* clauses of one request
    LET a == Base.steps[i] b == q.steps[i] IN
    IF a.outcome # b.outcome THEN {a.op \o ": " \o b.outcome \o " instead of " \o a.outcome}
    ELSE IF Len(a.results) # Len(b.results) THEN {a.op \o ": other results"}
    ELSE {a.op \o ": " \o a.results[j].name \o " depends on storage" :
             j \in {j \in 1..Len(a.results) : ~SameResult(a.results[j], b.results[j])}}
         \cup (IF b.unchanged THEN {} ELSE {a.op \o ": input modified"})
Judge(q) == IF Len(q.steps) # Len(Base.steps) THEN {"other requests answered"}
            ELSE UNION {Step(q, i) : i \in 1..Len(q.steps)}
\* what the first run itself has to satisfy
Sound(q) == UNION {(IF q.steps[i].outcome \in {"ok", "RuntimeError"} THEN {} ELSE {q.steps[i].op \o " raised " \o q.steps[i].outcome})
                   \cup {q.steps[i].op \o ": " \o q.steps[i].results[j].name \o " malformed" :
                           j \in {j \in 1..Len(q.steps[i].results) : q.steps[i].results[j].shape = <<-1>>}}
                   : i \in 1..Len(q.steps)}

TraceInit == tr \in 1..Len(Traces) /\ run = 1 /\ bad = {}
Next1 == /\ run <= Len(T.runs)
         /\ bad' = bad \cup (IF run = 1 THEN Sound(Base) ELSE Judge(T.runs[run]))
         /\ run' = run + 1 /\ UNCHANGED tr
End == /\ run = Len(T.runs) + 1
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ run' = run + 1 /\ UNCHANGED <<tr, bad>>
TraceNext == Next1 \/ End
==============================================================================
