---------------------------- MODULE FurthestSumMC ----------------------------
(* Every symmetric matrix over 0..MaxD with zero diagonal, every request.  *)
EXTENDS FurthestSum, IOUtils, CSV, Json

CONSTANTS Size, MaxD, MaxExtra

Pairs == {<<i, j>> \in (1..Size) \X (1..Size) : i < j}
Matrices == {[i \in 1..Size |-> [j \in 1..Size |->
                IF i = j THEN RFrac(0, 1) ELSE
                IF i < j THEN RFrac(w[<<i, j>>], 1) ELSE RFrac(w[<<j, i>>], 1)]] :
              w \in [Pairs -> 0..MaxD]}
Itself(d) == d
VARIABLES start
vars == <<fsvars, start>>
Init == \E d \in Matrices, kk \in 1..Size, st \in 0..(Size - 1), ne \in 0..MaxExtra,
           ex \in {{}, {0}, {Size - 1, 1}} :
        /\ Valid(Size, Size, kk, st, ex)
        /\ start = st
        /\ Start(d, kk, st, ex, ne, Zero)
Emit == /\ pc = "done" /\ pc' = "written"
        /\ (IOEnv.OUT = "" \/ CSVWrite("%1$s", <<ToJson(
              [D |-> D, k |-> k, start |-> start, exclude |-> excl, extra |-> extra,
               selected |-> sel])>>, IOEnv.OUT))
        /\ UNCHANGED <<fixed, sel, q, step>>
Next == (FSNext \/ Emit) /\ UNCHANGED start
==============================================================================
