----------------------------- MODULE ProgressTrace -----------------------------
(***************************************************************************)
(* What fits and transforms print, against the report of the loop they     *)
(* ran: OuterLoop!ReportRows and OuterLoop!Announced for the costs of growing    *)
(* limits, printed with seven digits.                                      *)
(***************************************************************************)
EXTENDS OuterLoop, Factorisation, Json, CSV, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, costs, bad
vars == <<tr, i, costs, bad>>
T == Traces[tr]

TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ costs = <<>> /\ bad = {}
Start == /\ i = 0
         /\ bad' = IF T.error # "" THEN {T.error}
                   ELSE IF T.states = <<>> /\ ~VFin(T.costs) THEN {"cost-not-finite"} ELSE {}
         /\ costs' = IF bad' # {} THEN <<>> ELSE IF T.states = <<>> THEN T.costs
                     ELSE [m \in 1..Len(T.states) |-> Cost(T.problem, T.states[m])]
         /\ i' = 1 /\ UNCHANGED tr

Err     == RAdd(RMul("1e-11", VMaxAbs(costs)), RMul("1e-11", T.size))
Digits  == "1e-6"                            \* of seven significant digits
\* a printed number shows v, known up to err
Shows(printed, v, err) == RFin(printed) /\ RNear(printed, v, RAdd(err, RMul(Digits, RAdd(RAbs(v), err))))

\* the table of a loop over the known costs
Truthful(t, n, announced) ==
    /\ Len(t.rows) = n
    /\ \A r \in 1..n : LET row == t.rows[r] known == ReportRows(costs, n)[r] IN
         /\ row[1] = known.n
         /\ Shows(row[2], known.cost, RMul(Two, Err))
         /\ Shows(row[3], known.change, RMul("4", Err))
    /\ [a \in 1..Len(t.met) |-> t.met[a][1]] = announced
    /\ \A a \in 1..Len(t.met) : t.met[a][2] = n   \* after the last row

\* clauses of any table, by itself
Clauses(t, elapsed) ==
    LET n == Len(t.rows) fin == \A r \in 1..n : VFin(<<t.rows[r][2], t.rows[r][3], t.rows[r][4]>>) IN
    (IF t.k \in {-1, T.k} THEN {} ELSE {"components-in-the-header"})
    \cup (IF \A r \in 1..n : t.rows[r][1] = r THEN {} ELSE {"rows-not-numbered-in-order"})
    \cup (IF n > 0 \/ t.met = <<>> THEN {} ELSE {"converged-without-iterations"})
    \cup (IF Len(t.met) <= 1 /\ \A a \in 1..Len(t.met) : t.met[a] = <<n, n>> THEN {}
          ELSE {"converged-at-another-iteration"})
    \cup (IF ~fin THEN {"not-a-number-in-a-row"}
          ELSE (IF \A r \in 2..n : RNear(t.rows[r][3], RSub(t.rows[r][2], t.rows[r - 1][2]),
                      RAdd(RMul(Digits, RAdd(RAbs(t.rows[r][2]), RAdd(RAbs(t.rows[r - 1][2]), RAbs(t.rows[r][3])))), Err))
                THEN {} ELSE {"changes-are-not-those-of-the-costs"})
          \cup (IF (\A r \in 1..n : RLeq(Zero, t.rows[r][4]))
                   /\ RLeq(VSum([r \in 1..n |-> t.rows[r][4]]), RMul(elapsed, "1.00001"))
                THEN {} ELSE {"times-longer-than-the-call"}))

RunClauses(r) ==
    IF r.outcome # "ok" THEN {"raised " \o r.outcome}
    ELSE IF r.silent THEN
        (IF r.text > 0 THEN {"fit-prints-without-verbosity"} ELSE {})
        \cup {r.calls[c].call \o "-prints-without-verbosity" : c \in {d \in 1..Len(r.calls) : r.calls[d].text > 0}}
    ELSE IF r.tables = <<>> THEN {"no-report"}
    ELSE LET ends == {o \in Outcomes(costs, r.tol, r.limit, Err, 1) :
                        o[2] = r.warned /\ (RLt(Zero, r.tol) \/ o[1] = r.limit)}
             last == r.tables[Len(r.tables)]
         IN (IF \E o \in ends : Truthful(last, o[1], Announced(r.tol, o[1], r.warned)) THEN {}
             ELSE {"report-is-not-that-of-the-fit"})
            \cup UNION {Clauses(r.tables[t], r.elapsed) : t \in 1..Len(r.tables)}
            \cup UNION {UNION {Clauses(r.calls[c].tables[t], r.calls[c].elapsed)
                                 : t \in 1..Len(r.calls[c].tables)} : c \in 1..Len(r.calls)}

Run == /\ i \in 1..Len(T.runs) /\ costs # <<>>
       /\ bad' = bad \cup RunClauses(T.runs[i])
       /\ i' = i + 1 /\ UNCHANGED <<tr, costs>>
Done == i > 0 /\ (i > Len(T.runs) \/ costs = <<>>)
End == /\ Done /\ i # 1000000
       /\ i' = 1000000
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, costs, bad>>
TraceNext == Start \/ Run \/ End
==============================================================================
