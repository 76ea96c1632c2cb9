------------------------------ MODULE SimplexMC ------------------------------
(***************************************************************************)
(* The projection algorithm of simplex_projection.py as a state machine    *)
(* (sort, then a descending scan for the threshold), checked against the   *)
(* definition for every vector of a grid; the behaviours are written out   *)
(* and replayed into the code.                                             *)
(***************************************************************************)
EXTENDS Simplex, IOUtils, CSV, Json

CONSTANTS N, Neg, Hi, Den, Grid \* entries a/Den, a \in -Neg..Hi; lengths 1..N;
                                \* Grid: resolution of the enumerated simplex

VARIABLES x,      \* the input
          s,      \* sorted ascending
          i,      \* scan position: the entries i+1..n are taken
          t,      \* current threshold
          pc,     \* "scan", "done"
          y       \* the result
vars == <<x, s, i, t, pc, y>>

SortUp(v) == SortSeq(v, LAMBDA a, b : RLt(a, b))
Inputs == UNION {[1..n -> {RFrac(a, Den) : a \in -Neg..Hi}] : n \in 1..N}

Init == /\ x \in Inputs
        /\ s = SortUp(x)
        /\ i = Len(x) - 1
        /\ t = Zero
        /\ pc = "scan"
        /\ y = <<>>

Threshold == RDiv(RSub(VSum(SubSeq(s, i + 1, Len(s))), One), RFrac(Len(s) - i, 1))

Scan == /\ pc = "scan" /\ i >= 0
        /\ t' = Threshold
        /\ IF i >= 1 /\ ~RLeq(s[i], t')
           THEN i' = i - 1 /\ UNCHANGED <<x, s, pc, y>>
           ELSE /\ pc' = "done"
                /\ y' = [j \in 1..Len(x) |-> RMax(RSub(x[j], t'), Zero)]
                /\ UNCHANGED <<x, s, i>>
Emit == /\ pc = "done" /\ pc' = "written"
        /\ (IOEnv.OUT = "" \/ CSVWrite("%1$s", <<ToJson([x |-> x, y |-> y])>>, IOEnv.OUT))
        /\ UNCHANGED <<x, s, i, t, y>>
Next == Scan \/ Emit

RECURSIVE Compositions(_, _)
Compositions(n, total) ==
    IF n = 1 THEN {<<total>>}
    ELSE UNION {{<<a>> \o c : c \in Compositions(n - 1, total - a)} : a \in 0..total}
SimplexPoints(n) == {[j \in 1..n |-> RFrac(c[j], Grid)] : c \in Compositions(n, Grid)}
Points == [n \in 1..N |-> SimplexPoints(n)]

Done == pc # "scan"
IsDefinition == Done => IsProjection(x, y)
IsOperator   == Done => \A j \in 1..Len(x) : REq(y[j], Project(x)[j])
IsNearest    == Done => \A z \in Points[Len(x)] : RLeq(Dist2(x, y), Dist2(x, z))
Idempotent   == Done => \A j \in 1..Len(x) : REq(Project(y)[j], y[j])
NonExpansive == Done => \A j \in 1..Len(x) :   \* moving one entry
                   LET x2 == [x EXCEPT ![j] = RAdd(x[j], One)] IN
                   RLeq(Dist2(y, Project(x2)), One)
ShiftInvariant == Done => LET x2 == [j \in 1..Len(x) |-> RAdd(x[j], "7/3")] IN
                   \A j \in 1..Len(x) : REq(Project(x2)[j], y[j])
==============================================================================
