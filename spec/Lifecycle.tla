------------------------------- MODULE Lifecycle -------------------------------
(***************************************************************************)
(* What the calls on an estimator do to its fitted parameters.             *)
(*                                                                         *)
(* A call is a record                                                      *)
(*   op      "fit", "refuse" (a fit with an invalid argument),             *)
(*           "transform", "predict", "inverse" or "scribble" (the caller   *)
(*           overwrites the arrays passed in before)                       *)
(*   data    which data set;  frozen  the factors not to be updated        *)
(* The parameters map a factor to its value, a term saying what it was     *)
(* computed from: nothing else may enter, so equal terms must be equal     *)
(* numbers, whatever was called before and on which instance.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Unfitted == <<"unfitted">>
Value(c, b) == IF b \in c.frozen THEN <<"given", c.data, b>>
               ELSE <<"fitted", c.data, c.frozen, b>>
\* parameters after the call c
After(par, c, blocks) == IF c.op = "fit" THEN [b \in blocks |-> Value(c, b)] ELSE par
Outcome(c) == IF c.op = "refuse" THEN "refused" ELSE "ok"
\* calls that make sense before the first fit
Possible(par, c, blocks) == c.op \in {"fit", "refuse"} \/ \A b \in blocks : par[b] # Unfitted

\* the last accepted fit of a history (0: none)
LastFit(calls, i) == LET fits == {j \in 1..i : calls[j].op = "fit"} IN
    IF fits = {} THEN 0 ELSE CHOOSE j \in fits : \A k \in fits : k <= j
==============================================================================
