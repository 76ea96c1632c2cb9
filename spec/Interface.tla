------------------------------- MODULE Interface -------------------------------
(***************************************************************************)
(* The form of everything the estimators take and return.                  *)
(*                                                                         *)
(* A request is a record with the estimator (kind), the size of the data   *)
(* it was fitted to (n samples, d features), the components k (0: left to  *)
(* the data), and, where the estimator has them, the number of lags (lags) *)
(* and the largest (lag), the longest memory (mem), the exogenous features *)
(* (e) and the orders p, s of a piecewise regression.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Convex  == {"gpnh", "mtd", "crom"}
Kernel  == {"kernel_aa", "aa"}
Fembv   == {"kmeans", "varx"}
Kinds   == Convex \cup Kernel \cup Fembv \cup {"km", "pw"}
Lagged  == {"mtd", "crom"}
Max(a, b) == IF a < b THEN b ELSE a

\* the number of components of a fit
Components(q) ==
    IF q.k # 0 THEN q.k
    ELSE CASE q.kind \in Kernel -> q.n        \* all samples are archetypes
           [] q.kind = "km" -> 2
           [] OTHER -> q.d                    \* as many as features
\* samples that have no weights of their own
First(q) == CASE q.kind = "varx" -> q.mem [] q.kind = "pw" -> Max(q.p, q.s) [] OTHER -> 0

\* requests an estimator can serve
Admissible(q) ==
    /\ q.n > First(q)
    /\ q.kind \in Kernel \cup {"km", "kmeans"} => Components(q) <= q.n
    /\ q.kind = "pw" => q.k # 0 /\ q.p + q.s * q.e > 0 /\ q.k <= q.n - First(q)
    /\ q.init = "furthest_sum" => Components(q) <= q.n

Data(q, m)    == <<m, IF q.kind = "kernel_aa" THEN m ELSE q.d>>
Weights(q, m) == IF q.kind = "pw" THEN <<m - First(q)>> ELSE <<m - First(q), Components(q)>>

\* the fitted attributes, with their forms
Attributes(q) ==
    LET K == Components(q) IN
    CASE q.kind = "gpnh" -> [dictionary_ |-> <<K, q.d>>]
      [] q.kind \in Kernel -> [dictionary_ |-> <<K, q.n>>]
      [] q.kind \in Lagged -> [dictionary_ |-> <<K, q.d>>, order_weights |-> <<q.lags>>,
                               transition_matrices |-> <<q.lags, K, K>>]
      [] q.kind = "kmeans" -> [Theta |-> <<K, q.d>>, Gamma |-> Weights(q, q.n)]
      [] q.kind = "varx" -> [mu |-> <<K, q.d>>, Gamma |-> Weights(q, q.n)]
                            @@ (IF q.mem > 0 THEN [A |-> <<K, q.mem, q.d, q.d>>] ELSE <<>>)
                            @@ (IF q.e > 0 THEN [B0 |-> <<K, q.d, q.e>>] ELSE <<>>)
      [] q.kind = "km" -> [cluster_centers_ |-> <<K, q.d>>, labels_ |-> <<q.n>>, transition_matrix_ |-> <<K, K>>,
                           inertia_ |-> <<>>]
      [] OTHER -> [mu |-> <<K, q.d>>, residuals |-> <<q.n - First(q), q.d>>, Sigma_u |-> <<K, q.d, q.d>>,
                   cluster_labels_ |-> <<q.n - First(q)>>]
                  @@ (IF q.p > 0 THEN [A |-> <<K, q.p, q.d, q.d>>] ELSE <<>>)
                  @@ (IF q.s * q.e > 0 THEN [B |-> <<K, q.s, q.d, q.e>>] ELSE <<>>)
Scalars(q) == CASE q.kind = "km" -> {"n_iter_"} [] q.kind = "pw" -> {} [] OTHER -> {"cost_", "n_iter_", "n_components_"}

\* the calls an estimator offers, and the form of what each returns for m samples
Calls(q) == {"fit", "fit_transform", "transform"}
            \cup (IF q.kind \in Lagged \cup {"km"} THEN {"predict"} ELSE {})
            \cup (IF q.kind \in Convex \cup Kernel THEN {"inverse_transform"} ELSE {})
            \cup (IF q.kind = "km" THEN {"fit_predict"} ELSE {})
Result(q, op, m) ==
    CASE op \in {"fit_transform", "transform"} -> Weights(q, m)
      [] op = "fit_predict" -> <<m>>
      [] op = "predict" -> IF q.kind = "km" THEN <<m, Components(q)>> ELSE <<m, q.d>>
      [] op = "inverse_transform" -> <<m, IF q.kind \in Kernel THEN q.n ELSE q.d>>
\* the number of samples whose forecast is not a number
Blank(q, op, m, h) == IF op = "predict" /\ q.kind \in Lagged /\ h > 0
                      THEN (IF m < q.lag - 1 THEN m ELSE q.lag - 1) ELSE 0
RECURSIVE Size(_)
Size(shape) == IF shape = <<>> THEN 1 ELSE Head(shape) * Size(Tail(shape))
==============================================================================
