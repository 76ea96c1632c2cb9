--------------------------- MODULE ConstructionTrace ---------------------------
(***************************************************************************)
(* Lags must be positive and memories non-negative: anything else is       *)
(* refused with ValueError when the estimator is constructed or fitted.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IOUtils, Json, CSV, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
TraceInit == tr \in 1..Len(Traces) /\ done = FALSE
Verdict == LET t == Traces[tr] IN
    IF t.valid THEN (IF t.outcome = "ok" THEN "accepted" ELSE "raised " \o t.outcome \o " for " \o t.what)
    ELSE IF t.outcome = "ValueError" THEN "accepted" ELSE t.outcome \o " instead of ValueError for " \o t.what
TraceNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
             /\ CSVWrite("%1$s|%2$s", <<ToString(tr), Verdict>>, IOEnv.VERDICTS)
==============================================================================
