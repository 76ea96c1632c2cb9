------------------------------ MODULE SPGTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the step rules: single calls, and the calls made by   *)
(* real line searches (a search starts with step one and goes on from the  *)
(* step it was given).                                                     *)
(***************************************************************************)
EXTENDS SPG, TLC, IOUtils, CSV, Json

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad, cur, n
vars == <<tr, i, bad, cur, n>>
Ev == Traces[tr].events

StepClause(e) ==
    IF e.outcome # "ok" THEN "step-rule-raised " \o e.outcome
    ELSE IF ~RFin(e.value) THEN "step-not-finite"
    ELSE IF ~(RLt(Zero, e.value) /\ RLt(e.value, e.step)) THEN "step-does-not-shrink"
    ELSE IF ~IsNextStep(e.value, e.step, e.delta, e.fold, e.fnew, e.s1, e.s2) THEN "not-the-safeguarded-minimiser"
    ELSE ""
AlphaClause(e) ==
    IF e.outcome # "ok" THEN "alpha-rule-raised " \o e.outcome
    ELSE IF ~RFin(e.value) THEN "alpha-not-finite"
    ELSE IF ~IsNextAlpha(e.value, e.beta, e.sksk, e.lo, e.hi) THEN "not-the-clipped-ratio"
    ELSE ""
\* Calls outside the rule's premises (no descent direction, not rejected,
\* non-finite data) say nothing.
Relevant(e) ==
    IF e.op = "alpha" THEN VFin(<<e.beta, e.sksk>>) /\ RLeq(Zero, e.sksk)
    ELSE /\ VFin(<<e.step, e.delta, e.fold, e.fnew>>) /\ RLt(e.delta, Zero) /\ RLt(Zero, e.step)
         /\ Rejected(e.step, e.delta, e.fold, e.fnew, e.gamma)
\* in a search of a fit the arguments are the configured ones, and the
\* trial steps are linked
Linked(e) ==
    IF ~Traces[tr].linked THEN ""
    ELSE IF e.op = "alpha"
         THEN IF REq(e.lo, Traces[tr].lo) /\ REq(e.hi, Traces[tr].hi) THEN "" ELSE "wrong-alpha-limits"
         ELSE IF ~(REq(e.s1, Traces[tr].s1) /\ REq(e.s2, Traces[tr].s2)) THEN "wrong-safeguards"
         ELSE IF REq(e.step, One) \/ (cur # "" /\ REq(e.step, cur)) THEN "" ELSE "trial-steps-not-linked"

TraceInit == /\ tr \in 1..Len(Traces) /\ i = 1
             /\ bad = IF Traces[tr].linked /\ Traces[tr].fit = "timeout" THEN "search-does-not-end" ELSE ""
             /\ cur = "" /\ n = 0
Take == /\ bad = "" /\ i \in 1..Len(Ev)
        /\ LET e == Ev[i]
               l == Linked(e)
           IN  /\ bad' = IF l # "" THEN l ELSE IF ~Relevant(e) THEN ""
                         ELSE IF e.op = "step" THEN StepClause(e) ELSE AlphaClause(e)
               /\ cur' = IF e.op = "step" /\ RFin(e.value) THEN e.value ELSE ""
               /\ n' = n + 1
        /\ i' = i + 1 /\ UNCHANGED tr
End == /\ (bad # "" \/ i = Len(Ev) + 1) /\ i # 0
       /\ i' = 0
       /\ CSVWrite("%1$s|%2$s", <<ToString(tr), IF bad = "" THEN "accepted" ELSE bad>>, IOEnv.VERDICTS)
       /\ UNCHANGED <<tr, bad, cur, n>>
TraceNext == Take \/ End
==============================================================================
