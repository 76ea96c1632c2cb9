--------------------------- MODULE FurthestSumTrace ---------------------------
(* Recorded calls of furthest_sum against FurthestSum: an accepted call is *)
(* one whose result some behaviour of the specification ends with.         *)
EXTENDS FurthestSum, IOUtils, Json, CSV

Traces == JsonDeserialize(IOEnv.TRACES)
TraceMatrix(t) == Traces[t].D
VARIABLES tr, why
vars == <<fsvars, tr, why>>

T == Traces[tr]
Excl(t) == {t.exclude[i] : i \in 1..Len(t.exclude)}
IsValid(t) == Valid(t.rows, t.cols, t.k, t.start, Excl(t))

\* The checks that need no behaviour.
Static(t) ==
    IF ~t.unchanged THEN "input-modified"
    ELSE IF ~IsValid(t) THEN (IF t.outcome = "ValueError" THEN "refused" ELSE "not-refused: " \o t.outcome)
    ELSE IF t.outcome # "ok" THEN "raised " \o t.outcome
    ELSE IF Len(t.selected) # t.k THEN "wrong-number-of-points"
    ELSE IF t.k = 0 THEN "refused"
    ELSE IF Cardinality(Range(t.selected)) # t.k THEN "repeated-point"
    ELSE IF ~(Range(t.selected) \subseteq ((0..(t.rows - 1)) \ Excl(t))) THEN "forbidden-point"
    ELSE "run"

Rounding(t) == RMul("1e-13", RMul(RFrac(4 * (t.k + t.extra + 1), 1), MMaxAbs(t.D)))

TraceInit == /\ tr \in 1..Len(Traces)
             /\ why = Static(T)
             /\ IF why = "run"
                THEN Start(tr, T.k, T.start, Excl(T), T.extra, Rounding(T))
                ELSE /\ name = 0 /\ k = 0 /\ excl = {} /\ extra = 0 /\ slack = Zero
                     /\ sel = <<>> /\ q = <<>> /\ step = 0 /\ pc = "static"

Say(s) == CSVWrite("%1$s|%2$s", <<ToString(tr), s>>, IOEnv.VERDICTS)
Judge == /\ pc = "static" /\ pc' = "end"
         /\ Say(IF why = "refused" THEN "accepted" ELSE why)
         /\ UNCHANGED <<fixed, sel, q, step, tr, why>>
Accept == /\ pc = "done" /\ pc' = "end"
          /\ Say(IF sel = T.selected THEN "accepted" ELSE "not-the-furthest-points")
          /\ UNCHANGED <<fixed, sel, q, step, tr, why>>
\* Behaviours that can no longer end in the recorded result are cut: the
\* position refilled last at index p keeps its point.
LastVisit(p) == \* the last extra step that refills position p, -1 if none
    LET v == {s \in 0..(extra - 1) : (s % k) + 1 = p} IN
    IF v = {} THEN -1 ELSE CHOOSE s \in v : \A r \in v : r <= s
Viable == why = "run" /\ pc \in {"grow", "drop", "refill"} =>
    \A p \in 1..Len(sel) :
       (IF pc = "refill" /\ p = Position THEN TRUE
        ELSE IF LastVisit(p) < step THEN sel[p] = T.selected[p] ELSE TRUE)
Dead == /\ ~Viable /\ pc' = "end"
        /\ Say("not-the-furthest-points")
        /\ UNCHANGED <<fixed, sel, q, step, tr, why>>
TraceNext == Judge \/ Accept \/ Dead \/ (Viable /\ FSNext /\ UNCHANGED <<tr, why>>)
==============================================================================
