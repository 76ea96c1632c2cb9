--------------------------- MODULE MarkovForecastMC ----------------------------
(***************************************************************************)
(* The rolling window: a forecaster that keeps only the last LagMax        *)
(* weights, shifted by one for every step, against the recursion on the    *)
(* full history; all lag sets and histories of a small grid.               *)
(***************************************************************************)
EXTENDS MarkovForecast, IOUtils, Json, CSV

CONSTANTS Wide, MaxHorizon, Length
LagSets == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<4>>, <<1, 2, 4>>}
           \cup (IF Wide THEN {<<3>>, <<2, 3>>, <<1, 4>>, <<2, 2>>, <<4, 1, 2>>, <<1, 2, 3>>, <<3, 2, 1>>} ELSE {})
W == {<<"1", "0">>, <<"1/4", "3/4">>, <<"0", "1">>}
Ps == <<<<<<"1/2", "1">>, <<"1/2", "0">>>>, <<<<"0", "1/3">>, <<"1", "2/3">>>>, <<<<"1", "1/5">>, <<"0", "4/5">>>>>>
Ls == <<<<"1">>, <<"1/3", "2/3">>, <<"1/6", "1/3", "1/2">>>>
Model(lags) == [lags |-> lags, L |-> Ls[Len(lags)], P |-> SubSeq(Ps, 1, Len(lags))]

VARIABLES lags, hist, window, step
vars == <<lags, hist, window, step>>
Init == /\ lags \in LagSets
        /\ hist \in [1..Length -> W]
        /\ Length >= LagMax(lags)
        /\ window = SubSeq(hist, Length - LagMax(lags) + 1, Length)
        /\ step = 0
        /\ CSVWrite("%1$s", <<ToJson([lags |-> lags, hist |-> hist, L |-> Model(lags).L, P |-> Model(lags).P])>>, IOEnv.OUT)
Next == /\ step < MaxHorizon
        /\ window' = Append(Tail(window), NextWeights(Model(lags), window))
        /\ step' = step + 1
        /\ UNCHANGED <<lags, hist>>
Last == window[Len(window)]
Same(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : REq(u[i], v[i])
\* the window forecasts what the recursion on the whole history does
WindowSuffices == Same(Last, Forecast(Model(lags), hist, step))
Probability == REq(VSum(Last), One) /\ RLeq(Zero, VMin(Last))
\* forecasting in two stages is forecasting at once
Composes == \A a \in 0..step : Same(Last, LET h == Extend(Model(lags), hist, a) IN Forecast(Model(lags), h, step - a))
==============================================================================
