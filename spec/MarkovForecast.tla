----------------------------- MODULE MarkovForecast ----------------------------
(***************************************************************************)
(* Forecasts by a mixture-transition model with lags lags[i], order        *)
(* weights L[i] and transition matrices P[i] (columns: sources).           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

LagMax(lags) == CHOOSE l \in {lags[i] : i \in 1..Len(lags)} : \A j \in 1..Len(lags) : lags[j] <= l

\* next weights after the history h (oldest first, at least LagMax long)
NextWeights(m, h) ==
    LET RECURSIVE Sum(_)
        Sum(i) == IF i = 0 THEN [c \in 1..Len(h[1]) |-> Zero]
                  ELSE VAdd(Sum(i - 1),
                            VScale(m.L[i], MMul(<<h[Len(h) + 1 - m.lags[i]]>>, MT(m.P[i]))[1]))
    IN TLCEval(Sum(Len(m.lags)))
\* the history after n more steps
RECURSIVE Extend(_, _, _)
Extend(m, h, n) == IF n = 0 THEN h ELSE Extend(m, Append(h, NextWeights(m, h)), n - 1)

\* Forecast of the weights n steps after the last sample of the history;
\* <<>> when the history is too short for the largest lag.
Forecast(m, h, n) ==
    IF n = 0 THEN h[Len(h)]
    ELSE IF Len(h) < LagMax(m.lags) THEN <<>>
    ELSE LET e == Extend(m, h, n) IN e[Len(e)]
==============================================================================
