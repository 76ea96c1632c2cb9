----------------------------- MODULE LifecycleTrace ----------------------------
(***************************************************************************)
(* Recorded histories of calls.  A trace holds the calls, and for every    *)
(* instance (runs: the estimator, and a twin with the same arguments, more *)
(* output and another state of the global random generator) one event per  *)
(* call:                                                                   *)
(*   outcome                "ok" or the exception                          *)
(*   args, held             pairs <<digest before, digest after>> of the   *)
(*                          arrays passed in, and of everything obtained   *)
(*                          from the instance so far                       *)
(*   par                    pairs <<attribute, digest>> after the call     *)
(*   vals, result           numbers of the attributes and of the result    *)
(*   frozen                 <<factor, digest given, digest obtained>>      *)
(*   rng                    digests of the global generator                *)
(* fresh[i] is the event of the same call on a new instance, when that     *)
(* must agree (a fit whose outcome its arguments determine).               *)
(***************************************************************************)
EXTENDS Lifecycle, Factorisation, IOUtils, Json, CSV
FB == INSTANCE Fembv

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, par, bad
vars == <<tr, i, par, bad>>
T == Traces[tr]
Checks == {T.checks[j] : j \in 1..Len(T.checks)}
Facs == {T.factors[j] : j \in 1..Len(T.factors)}
Call(j) == [op |-> T.calls[j].op, data |-> T.calls[j].data,
            frozen |-> {T.calls[j].frozen[f] : f \in 1..Len(T.calls[j].frozen)}]
Event(r, j) == T.runs[r][j]
On(c, name) == c \in Checks /\ name # ""

\* equal numbers, up to rounding
SameNumbers(a, b) ==
    \/ a.digest = b.digest
    \/ /\ a.shape = b.shape /\ Len(a.flat) = Len(b.flat)
       /\ VFin(a.flat) /\ VFin(b.flat)
       /\ VNear(a.flat, b.flat, RMul("1e-7", RAdd(VMaxAbs(a.flat), "1e-12")))
SameEvents(a, b) ==
    /\ a.outcome = b.outcome
    /\ Len(a.vals) = Len(b.vals)
    /\ \A v \in 1..Len(a.vals) : a.vals[v].name = b.vals[v].name /\ SameNumbers(a.vals[v], b.vals[v])
    /\ SameNumbers(a.result, b.result)

Prefix(r) == IF r = 1 THEN "" ELSE IF r = 2 THEN "twin: " ELSE "fresh: "
\* C10
Untouched(e, n) ==
    (IF \A p \in 1..Len(e.args) : e.args[p][1] = e.args[p][2] THEN {} ELSE {n \o "argument-modified"})
    \cup (IF \A p \in 1..Len(e.held) : e.held[p][1] = e.held[p][2] THEN {} ELSE {n \o "earlier-result-modified"})
    \cup (IF e.scribble[1] = e.scribble[2] THEN {} ELSE {n \o "model-keeps-the-caller's-array"})
Before(r, j) == IF j = 1 THEN T.blank ELSE Event(r, j - 1).par
\* C09, C12
Kept(c, r, j) ==
    IF c.op = "fit" \/ Event(r, j).par = Before(r, j) THEN {}
    ELSE {IF c.op = "refuse" THEN "refused-call-changes-the-model" ELSE c.op \o "-changes-the-model"}
GivenBack(e) == IF \A p \in 1..Len(e.frozen) : e.frozen[p][2] = e.frozen[p][3] THEN {} ELSE {"frozen-factor-changed"}
Refused(c, e) ==
    IF c.op # "refuse" THEN (IF e.outcome = "ok" THEN {} ELSE {"raised " \o e.outcome \o " in " \o c.op})
    ELSE IF e.outcome = "ValueError" THEN {}
    ELSE IF e.outcome = "ok" THEN {"accepted " \o e.why} ELSE {e.outcome \o " instead of ValueError for " \o e.why}

\* C09: the weights of a transform are (nearly) optimal for the fitted model
Gap(p, s) == LET g == Grad(p, s, "G")[1] IN
    VSum(TLCEval([t \in 1..Len(g) |-> RSub(VDot(g[t], s.G[t]), VMin(g[t]))]))
Represents(e) ==
    IF ~e.judged \/ e.outcome # "ok" THEN {}
    ELSE IF e.fembv
    THEN LET p == e.problem D == FB!Distances(p, e.state) IN
         IF FB!RowStochastic(e.state.G, Zero, "1e-6") /\ FB!OptimalFor(p, e.state.G, D, e.dual, p.tv)
         THEN {} ELSE {"weights-do-not-represent-the-data"}
    ELSE IF \E k \in 1..Len(e.state.G) : ~VFin(e.state.G[k]) THEN {"weights-not-finite"}
    ELSE IF RowsStochastic(e.state.G, "1e-9")
            /\ RLeq(Gap(e.problem, e.state), RMul("0.03", CostScale(e.problem, e.state)))
         THEN {} ELSE {"weights-do-not-represent-the-data"}
\* the product of weights and dictionary
Product(e) ==
    IF e.product = <<>> THEN {}
    ELSE LET w == e.product[1] d == e.product[2] r == e.product[3] IN
         IF MNear(r, MMul(w, d), RMul("1e-10", RAdd(One, MMaxAbs(d)))) THEN {} ELSE {"inverse-is-not-the-product"}

Judge(j) ==
    LET c == Call(j) e == Event(1, j) t == Event(2, j) IN
    (IF "touch" \in Checks THEN Untouched(e, "") \cup Untouched(t, "twin: ") ELSE {})
    \cup (IF "keep" \in Checks
          THEN (IF c.op = "refuse" THEN {} ELSE Kept(c, 1, j)) \cup GivenBack(e) \cup Represents(e) \cup Product(e)
          ELSE {})
    \cup (IF "refuse" \in Checks THEN Refused(c, e) \cup (IF c.op = "refuse" THEN Kept(c, 1, j) ELSE {}) ELSE {})
    \cup (IF "refuse" \notin Checks /\ c.op # "refuse" /\ e.outcome # "ok" THEN {"raised " \o e.outcome \o " in " \o c.op} ELSE {})
    \cup (IF "repeat" \in Checks
          THEN (IF e.outcome = t.outcome /\ (LastFit(T.calls, j) = 0 \/ SameEvents(e, t)) THEN {} ELSE {"twin-disagrees in " \o c.op})
               \cup (IF e.rng[1] = e.rng[2] /\ t.rng[1] = t.rng[2] THEN {} ELSE {"global-generator-advanced in " \o c.op})
               \cup (IF T.fresh[j] = <<>> THEN {}
                     ELSE IF SameEvents(e, T.fresh[j][1]) THEN {} ELSE {"history-leaks-into-a-fit"})
               \* the same value for the same term, earlier in this history
               \cup (IF c.op = "fit" /\ T.fresh[j] # <<>>
                        /\ \E h \in 1..(j - 1) : Call(h) = c /\ ~SameEvents(Event(1, h), e)
                     THEN {"equal-fits-disagree"} ELSE {})
          ELSE {})

TraceInit == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {} /\ par = [b \in {} |-> Unfitted]
Start == /\ i = 0 /\ i' = 1
         /\ par' = [b \in Facs |-> Unfitted]
         /\ bad' = IF T.error = "" THEN {} ELSE {T.error}
         /\ UNCHANGED tr
Step == /\ i \in 1..Len(T.calls) /\ bad = {}
        /\ Assert(Possible(par, Call(i), Facs), "history")
        /\ bad' = Judge(i)
        /\ par' = After(par, Call(i), Facs)
        /\ i' = i + 1 /\ UNCHANGED tr
Done == i > 0 /\ (bad # {} \/ i > Len(T.calls))
End == /\ Done /\ i # 1000000 /\ i' = 1000000
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = {} THEN "accepted" ELSE ToString(bad)>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, par, bad>>
TraceNext == Start \/ Step \/ End
==============================================================================
