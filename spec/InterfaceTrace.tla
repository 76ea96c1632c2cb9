---------------------------- MODULE InterfaceTrace ----------------------------
(***************************************************************************)
(* Recorded sessions.  Each event has the call (op, m, h), its outcome,    *)
(* what it returned (form, number of finite entries, and whether it was    *)
(* the estimator itself), the fitted attributes (name, form, number of     *)
(* finite entries, values), the iterations reported and allowed, and, for  *)
(* a fit, the same from an equal estimator fitted by another call.         *)
(* "other" is anything but an array of real numbers.                       *)
(***************************************************************************)
EXTENDS Interface, Rat, IOUtils, Json, CSV
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, q, bad
vars == <<tr, i, q, bad>>
T == Traces[tr]
Want(c) == c \in {T.checks[j] : j \in 1..Len(T.checks)}
Has(e, f) == \E j \in 1..Len(e.attributes) : e.attributes[j].name = f
Get(e, f) == e.attributes[CHOOSE j \in 1..Len(e.attributes) : e.attributes[j].name = f]

\* forms and finiteness
Formed(e, r) ==
    LET A == Attributes(r) IN
    UNION {IF ~Has(e, f) THEN {f \o "-missing"}
           ELSE LET a == Get(e, f) IN
                IF a.kind # "real" \/ a.shape # A[f] THEN {f \o "-has-the-wrong-form"}
                ELSE IF f # "Sigma_u" /\ a.finite # Size(A[f]) THEN {f \o "-not-finite"} ELSE {} :
           f \in DOMAIN A}
    \cup UNION {IF ~Has(e, f) THEN {f \o "-missing"}
                ELSE LET a == Get(e, f) IN
                     IF a.kind # "real" \/ a.shape # <<>> THEN {f \o "-has-the-wrong-form"}
                     ELSE IF a.finite # 1 THEN {f \o "-not-finite"} ELSE {} : f \in Scalars(r)}
Counted(e, r) ==
    IF ~Has(e, "n_components_") THEN {}
    ELSE IF Get(e, "n_components_").count = Components(r) THEN {} ELSE {"wrong-number-of-components"}
Limited(e) == IF e.iterations = -1 \/ (e.iterations >= 0 /\ e.iterations <= T.limit) THEN {} ELSE {"more-iterations-than-allowed"}
Returned(e, r) ==
    IF e.op = "fit" THEN {}
    ELSE LET w == Result(r, e.op, e.m)
             full == Size(w) - Blank(r, e.op, e.m, e.h) * w[Len(w)] IN
         IF e.result.kind # "real" \/ e.result.shape # w THEN {e.op \o "-returns-the-wrong-form"}
         ELSE IF e.result.finite # full THEN {e.op \o "-not-finite"} ELSE {}
\* entry points
SameNumbers(a, b) ==
    a.shape = b.shape /\ a.flat # <<>> /\ Len(a.flat) = Len(b.flat)
    /\ (IF VFin(a.flat) /\ VFin(b.flat)
        THEN VNear(a.flat, b.flat, RMul("1e-8", RAdd("1e-300", VMaxAbs(a.flat)))) ELSE a.flat = b.flat)
Agrees(e, o) ==
    IF o.outcome # e.outcome THEN {o.op \o " and " \o e.op \o " end differently: " \o o.outcome \o ", " \o e.outcome}
    ELSE UNION {IF ~Has(o, e.attributes[j].name) \/ ~SameNumbers(e.attributes[j], Get(o, e.attributes[j].name))
                THEN {o.op \o "-and-" \o e.op \o "-leave-different-" \o e.attributes[j].name} ELSE {} :
                j \in 1..Len(e.attributes)}
Entry(e) ==
    (IF e.op = "fit" /\ ~e.itself THEN {"fit-does-not-return-the-estimator"} ELSE {})
    \cup UNION {Agrees(e, e.others[j]) : j \in 1..Len(e.others)}
    \cup (IF e.product = <<>> THEN {}
          ELSE LET W == e.product[1]  D == e.product[2]  V == e.product[3] IN
               IF ~MFin(W) \/ ~MFin(D) THEN {}
               ELSE IF IsShape(V, Len(W), Len(D[1])) /\ MFin(V)
                       /\ MNear(V, MMul(W, D), RMul("1e-11", RMul(MMaxAbs(W), MMaxAbs(D))))
                    THEN {} ELSE {"reconstruction-is-not-weights-times-dictionary"})
    \cup UNION {IF SameNumbers(e.same[j][2], e.same[j][3]) THEN {} ELSE {e.same[j][1]} : j \in 1..Len(e.same)}

Events == T.events
TraceInit == tr \in 1..Len(Traces) /\ i = 1 /\ q = Traces[tr].q /\ bad = {}
Step == LET e == Events[i]
            r == IF e.op \in {"fit", "fit_transform", "fit_predict"} THEN [q EXCEPT !.n = e.m] ELSE q IN
    /\ i <= Len(Events) /\ bad = {}
    /\ q' = r
    /\ bad' = IF e.outcome # "ok" THEN {e.op \o " raised " \o e.outcome}
              ELSE (IF Want("form") THEN Returned(e, r) \cup Limited(e)
                        \cup (IF e.op \in {"fit", "fit_transform", "fit_predict"} THEN Formed(e, r) \cup Counted(e, r) ELSE {})
                    ELSE {})
                   \cup (IF Want("entry") THEN Entry(e) ELSE {})
    /\ i' = i + 1 /\ UNCHANGED tr
End == /\ i <= Len(Events) + 1 /\ (bad # {} \/ i = Len(Events) + 1)
       /\ i' = Len(Events) + 2
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, q, bad>>
TraceNext == Step \/ End
==============================================================================
