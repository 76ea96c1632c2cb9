----------------------------- MODULE FurthestSum -----------------------------
(***************************************************************************)
(* FurthestSum selection of sample points (furthest_sum.py).               *)
(*                                                                         *)
(* State: the selection by position and, for every candidate, its summed   *)
(* dissimilarity to the current selection, maintained incrementally.  Ties *)
(* may be broken either way: Pick is nondeterministic.                     *)
(* Points are numbered from 0, positions from 1.                           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

CONSTANT Matrix(_)  \* the matrix a name stands for
VARIABLES name,   \* of the symmetric dissimilarity matrix, D[i+1][j+1]
          k,      \* number of points to select
          excl,   \* excluded points
          extra,  \* number of extra steps
          slack,  \* sums this close to the largest count as ties (rounding)
          sel,    \* selected points, by position
          q,      \* candidate -> summed dissimilarity to the selection
          step,   \* extra steps made so far
          pc      \* "grow", "drop", "refill", "done"
fsvars == <<name, k, excl, extra, slack, sel, q, step, pc>>
fixed  == <<name, k, excl, extra, slack>>

D         == Matrix(name)
N(d)      == Len(d)
Points(d) == 0..(N(d) - 1)
Dist(i, j) == D[i + 1][j + 1]
Range(s)  == {s[i] : i \in 1..Len(s)}

\* Requests that can be met.
Valid(rows, cols, kk, start, ex) ==
    /\ rows = cols
    /\ start \in 0..(rows - 1)
    /\ start \notin ex
    /\ kk <= rows - Cardinality(ex \cap (0..(rows - 1)))

Start(nm, kk, start, ex, nextra, slk) ==
    /\ name = nm /\ k = kk /\ excl = ex /\ extra = nextra /\ slack = slk
    /\ sel = <<start>>
    /\ q = LET d == Matrix(nm) IN
           [i \in Points(d) \ (ex \cup {start}) |-> RNorm(d[i + 1][start + 1])]
    /\ step = 0
    /\ pc = IF kk > 1 THEN "grow" ELSE "drop"

Furthest(cand) == {i \in DOMAIN cand : \A j \in DOMAIN cand : RLeq(cand[j], RAdd(cand[i], slack))}

\* Take i out of the candidates and account for it in the others' sums.
Select(cand, i) == [j \in DOMAIN cand \ {i} |-> RAdd(cand[j], Dist(i, j))]

Pick(i) == /\ pc = "grow" /\ i \in Furthest(q)
           /\ sel' = Append(sel, i)
           /\ q' = Select(q, i)
           /\ pc' = IF Len(sel') < k THEN "grow" ELSE "drop"
           /\ UNCHANGED <<fixed, step>>

Position == (step % k) + 1
SumTo(i) == VSum([p \in 1..k |-> IF p = Position THEN Zero ELSE Dist(i, sel[p])])

\* One extra step: the point at the next position competes again ...
Drop == /\ pc = "drop" /\ step < extra
        /\ LET old == sel[Position] IN
           q' = [j \in DOMAIN q \cup {old} |->
                   IF j = old THEN SumTo(old) ELSE RSub(q[j], Dist(j, old))]
        /\ pc' = "refill"
        /\ UNCHANGED <<fixed, sel, step>>
\* ... and the furthest candidate takes its place.
Refill(i) == /\ pc = "refill" /\ i \in Furthest(q)
             /\ sel' = [sel EXCEPT ![Position] = i]
             /\ q' = Select(q, i)
             /\ step' = step + 1
             /\ pc' = "drop"
             /\ UNCHANGED fixed
Finish == /\ pc = "drop" /\ step = extra
          /\ pc' = "done"
          /\ UNCHANGED <<fixed, sel, q, step>>

FSNext == Drop \/ Finish \/ \E i \in DOMAIN q : Pick(i) \/ Refill(i)

(* Properties *)
Current == IF pc = "refill" THEN [p \in 1..k |-> IF p = Position THEN -1 ELSE sel[p]] ELSE sel
Distinct == \A a, b \in 1..Len(sel) : a # b => sel[a] # sel[b]
Allowed  == Range(sel) \subseteq (Points(D) \ excl)
Partition == /\ DOMAIN q \cap (Range(Current) \ {-1}) = {}
             /\ DOMAIN q \cup (Range(Current) \ {-1}) = Points(D) \ excl
SumsExact == \A i \in DOMAIN q :
               REq(q[i], VSum([p \in 1..Len(Current) |->
                    IF Current[p] = -1 THEN Zero ELSE Dist(i, Current[p])]))
Requested == pc \in {"drop", "refill", "done"} => Len(sel) = k
\* an extra step never decreases the dropped position's summed distance
RefillImproves == [][pc = "refill" =>
    LET other(i) == VSum([p \in 1..k |-> IF p = Position THEN Zero ELSE Dist(i, sel[p])])
    IN RLeq(other(sel[Position]), other(sel'[Position]))]_fsvars
==============================================================================
