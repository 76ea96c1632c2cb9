----------------------------- MODULE ForecastTrace -----------------------------
(***************************************************************************)
(* Recorded forecasts.  A trace holds a model (lags, L, P, dictionary D),  *)
(* the weights G of a series, and forecasts [horizon, values].             *)
(***************************************************************************)
EXTENDS MarkovForecast, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
T == Traces[tr]
M == [lags |-> T.lags, L |-> T.L, P |-> T.P]

TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Start == /\ i = 0 /\ i' = 1 /\ UNCHANGED tr
         /\ bad' = IF T.error = "" THEN {} ELSE {T.error}
Tol(w) == RMul("1e-9", RAdd(One, MMaxAbs(T.D)))
NanRow(v) == \A j \in 1..Len(v) : v[j] = "nan"
RowClauses(t, h, v) ==
    LET f == TLCEval(Forecast(M, SubSeq(T.G, 1, t), h)) IN
    IF f = <<>> THEN (IF NanRow(v) THEN {} ELSE {"forecast-without-enough-history"})
    ELSE IF \E j \in 1..Len(v) : ~RFin(v[j]) THEN {"no-forecast-although-enough-history"}
    ELSE (IF VNear(v, MMul(<<f>>, T.D)[1], Tol(f)) THEN {}
          ELSE IF h = 0 THEN {"not-the-reconstruction"} ELSE {"not-the-iterated-model"})
Judge == /\ i > 0 /\ i <= Len(T.forecasts) /\ bad = {}
         /\ LET f == T.forecasts[i] IN
            bad' = IF f.outcome # "ok" THEN {"raised " \o f.outcome}
                   ELSE IF ~IsShape(f.values, Len(T.G), Len(T.D[1])) THEN {"wrong-shape"}
                   ELSE UNION {RowClauses(t, f.horizon, f.values[t]) : t \in 1..Len(T.G)}
         /\ i' = i + 1 /\ UNCHANGED tr
Done == i > 0 /\ (bad # {} \/ i > Len(T.forecasts))
End == /\ Done /\ i # 1000000
       /\ i' = 1000000
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad>>
TraceNext == Start \/ Judge \/ End
==============================================================================
