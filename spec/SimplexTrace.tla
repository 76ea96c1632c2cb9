----------------------------- MODULE SimplexTrace -----------------------------
(* Recorded projections (vectors, rows and columns) against Simplex.       *)
EXTENDS Simplex, IOUtils, Json, CSV, FiniteSets

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, bad    \* trace, next row, failed clauses so far
vars == <<tr, l, bad>>

T == Traces[tr]
TraceInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}

\* the call as a whole
CallClauses ==
    (IF T.outcome = "ok" THEN {} ELSE {"raised " \o T.outcome}) \cup
    (IF T.unchanged THEN {} ELSE {"input-modified"}) \cup
    (IF T.same THEN {} ELSE {"out-array-differs-from-result"}) \cup
    (IF T.outside THEN {} ELSE {"wrote-outside-the-view"}) \cup
    (IF T.outcome = "ok" /\ Len(T.y) # Len(T.x) THEN {"shape"} ELSE {})
CallStep ==
    /\ l = 0
    /\ bad' = CallClauses
    /\ l' = IF CallClauses = {} THEN 1 ELSE Len(T.x) + 1
    /\ UNCHANGED tr
\* one row (or column, or the vector)
Row == /\ l \in 1..Len(T.x)
       /\ LET c == ProjClauses(T.x[l], T.y[l]) IN
          /\ bad' = c
          /\ l' = IF c = {} THEN l + 1 ELSE Len(T.x) + 1
       /\ UNCHANGED tr
End == /\ l = Len(T.x) + 1
       /\ l' = l + 1
       /\ IF bad = {} THEN CSVWrite("%1$s|accepted", <<ToString(tr)>>, IOEnv.VERDICTS)
          ELSE CSVWrite("%1$s|%2$s", <<ToString(tr), ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad>>
TraceNext == CallStep \/ Row \/ End
==============================================================================
