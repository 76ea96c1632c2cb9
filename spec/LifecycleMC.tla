------------------------------ MODULE LifecycleMC ------------------------------
(***************************************************************************)
(* An estimator that keeps its factors in storage cells and works on them  *)
(* in place, handing out references: every history of calls up to a        *)
(* length.  Checked: the fitted parameters depend on the last accepted fit *)
(* only, results handed out and the caller's arrays never change, and the  *)
(* working factors of a transform agree with the fitted ones.  The         *)
(* histories are written out and replayed into every estimator.            *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, IOUtils, Json, CSV
CONSTANTS Factors,      \* the factors of the estimator, "G" (weights) among them
          Depth,
          Careful       \* FALSE: the broken design that shares the caller's cells
VARIABLES mem,   \* cell -> term
          work,  \* factor -> cell the estimator works on
          attr,  \* factor -> cell of the fitted attribute
          own,   \* cells of the caller's arrays, with their terms
          held,  \* <<cell, term>> of everything handed out
          par,   \* the parameters as Lifecycle has them
          calls
vars == <<mem, work, attr, own, held, par, calls>>

Frozen == {F \in SUBSET Factors : Cardinality(Factors) > 1}
Calls == [op : {"fit"}, data : {1, 2}, frozen : Frozen \cup {{}}]
         \cup [op : {"refuse", "inverse", "scribble"}, data : {1}, frozen : {{}}]
         \cup [op : {"transform"}, data : {1, 2}, frozen : {{}}]
         \cup [op : {"predict"}, data : {2}, frozen : {{}}]
Order == CHOOSE q \in [1..Cardinality(Factors) -> Factors] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Position(b) == CHOOSE i \in DOMAIN Order : Order[i] = b
K == Cardinality(Factors)

Init == /\ mem = <<>> /\ work = [b \in Factors |-> 0] /\ attr = [b \in Factors |-> 0]
        /\ own = <<>> /\ held = {} /\ calls = <<>>
        /\ par = [b \in Factors |-> Unfitted]

\* the caller makes arrays for the guess; the estimator copies them into
\* cells of its own and iterates there
Fit(c) ==
    LET n == Len(mem)
        guess == [i \in 1..K |-> <<"given", c.data, Order[i]>>]
        mine  == IF Careful THEN [i \in 1..K |-> n + K + i] ELSE [i \in 1..K |-> n + i]
        final == [i \in 1..K |-> Value(c, Order[i])]
    IN /\ mem' = (IF Careful THEN mem \o guess \o final ELSE mem \o final)
       /\ own' = own \o [i \in 1..K |-> <<n + i, guess[i]>>]
       /\ work' = [b \in Factors |-> mine[Position(b)]]
       /\ attr' = work'
       /\ held' = held \cup {<<attr'[b], Value(c, b)>> : b \in Factors}
\* the other factors are copied, the weights are new
Transform(c) ==
    LET n == Len(mem) IN
    /\ mem' = mem \o [i \in 1..K |-> IF Order[i] = "G" THEN <<"weights", c.data, par["G"]>> ELSE mem[attr[Order[i]]]]
    /\ work' = [b \in Factors |-> n + Position(b)]
    /\ held' = held \cup {<<n + Position("G"), <<"weights", c.data, par["G"]>>>>}
    /\ UNCHANGED <<attr, own>>
Inverse(c) ==
    /\ mem' = Append(mem, <<"product", c.data, calls>>)
    /\ held' = held \cup {<<Len(mem'), <<"product", c.data, calls>>>>}
    /\ UNCHANGED <<work, attr, own>>
Refuse == UNCHANGED <<mem, work, attr, own, held>>
Scribble ==
    /\ mem' = [i \in 1..Len(mem) |-> IF \E j \in 1..Len(own) : own[j][1] = i THEN <<"scribble">> ELSE mem[i]]
    /\ own' = <<>>
    /\ UNCHANGED <<work, attr, held>>

Call(c) ==
    /\ Possible(par, c, Factors)
    /\ CASE c.op = "fit" -> Fit(c)
         [] c.op \in {"transform", "predict"} -> Transform(c)
         [] c.op = "inverse" -> Inverse(c)
         [] c.op = "refuse" -> Refuse
         [] c.op = "scribble" -> Scribble
    /\ par' = After(par, c, Factors)
    /\ calls' = Append(calls, c)
    /\ Len(calls') = Depth => CSVWrite("%1$s", <<ToJson(calls')>>, IOEnv.OUT)
Next == Len(calls) < Depth /\ \E c \in Calls : Call(c)

Parameters == \A b \in Factors : attr[b] # 0 => mem[attr[b]] = par[b]
Working    == \A b \in Factors \ {"G"} : work[b] # 0 => mem[work[b]] = mem[attr[b]]
Results    == \A h \in held : mem[h[1]] = h[2]
Caller     == \A j \in 1..Len(own) : mem[own[j][1]] = own[j][2]
History    == LET f == LastFit(calls, Len(calls)) IN
    \A b \in Factors : par[b] = IF f = 0 THEN Unfitted ELSE Value(calls[f], b)
==============================================================================
