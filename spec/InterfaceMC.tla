------------------------------ MODULE InterfaceMC ------------------------------
(***************************************************************************)
(* Sessions with one estimator: fitted, used on other data, fitted again   *)
(* to data of another size.  An independent account of the forms keeps the *)
(* forms of the stored factors and computes those of products; it has to   *)
(* agree with Interface.  The sessions are written out and replayed.       *)
(***************************************************************************)
EXTENDS Interface, IOUtils, Json, CSV
CONSTANTS Kind, Counts, Sizes, Dims, Slice, Slices
VARIABLES q, fitted, store, calls
vars == <<q, fitted, store, calls>>

LagSets == {<<1>>, <<3>>, <<1, 2>>, <<4, 1>>}
Largest(s) == CHOOSE v \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= v
Options ==
    CASE Kind \in Lagged -> [lagset : LagSets, mem : {0}, e : {0}, p : {0}, s : {0}, init : {"random", "furthest_sum"}]
      [] Kind = "varx" -> [lagset : {<<>>}, mem : {0, 1, 2}, e : {0, 2}, p : {0}, s : {0}, init : {"random"}]
      [] Kind = "pw" -> [lagset : {<<>>}, mem : {0}, e : {0, 1}, p : {0, 1, 2}, s : {0, 1}, init : {"random"}]
      [] Kind \in {"km", "kmeans"} -> [lagset : {<<>>}, mem : {0}, e : {0}, p : {0}, s : {0}, init : {"random"}]
      [] OTHER -> [lagset : {<<>>}, mem : {0}, e : {0}, p : {0}, s : {0}, init : {"random", "furthest_sum"}]
Request(o, n, d, k) ==
    [kind |-> Kind, n |-> n, d |-> d, k |-> k, lagset |-> o.lagset, lags |-> Len(o.lagset),
     lag |-> IF o.lagset = <<>> THEN 0 ELSE Largest(o.lagset),
     mem |-> o.mem, e |-> o.e, p |-> o.p, s |-> o.s, init |-> o.init]
\* one choice in Slices, another one for every request, slice and point of the session
Salt == q.n + 2 * q.d + 3 * q.k + 5 * q.lag + 7 * q.lags + 3 * q.mem + q.e + q.p + 2 * q.s + 5 * Len(calls) + Slice
Thin(S, H(_)) == LET c == {x \in S : (H(x) + Salt) % Slices = 0} IN
                 IF c # {} THEN c ELSE IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}

Init == /\ \E o \in Options, n \in Sizes, d \in Dims, k \in Counts :
              q = Request(o, n, d, k)
        /\ Admissible(q)
        /\ fitted = FALSE /\ store = <<>> /\ calls = <<>>

Fits == {"fit", "fit_transform", "fit_predict"} \cap Calls(q)
\* what the estimator keeps, computed the way it comes about
Stored(r) ==
    LET K == IF r.k # 0 THEN r.k ELSE IF r.kind \in Kernel THEN r.n ELSE IF r.kind = "km" THEN 2 ELSE r.d
        rows == IF r.kind = "varx" THEN r.n - r.mem
                ELSE IF r.kind = "pw" THEN r.n - Max(r.p, r.s) ELSE r.n IN
    [weights |-> <<rows, K>>,
     dictionary |-> CASE r.kind \in Convex -> <<K, r.d>> [] r.kind \in Kernel -> <<K, r.n>> [] OTHER -> <<K, r.d>>,
     markov |-> <<K, K>>]
Log(c) == calls' = Append(calls, c)
Refits == {x \in Fits \X Sizes : /\ Admissible([q EXCEPT !.n = x[2]])
                                 /\ x[1] # calls[1].op /\ IF q.k = 0 THEN x[2] = q.n ELSE x[2] # q.n}
Fit == /\ Len(calls) \in {0, 3} /\ UNCHANGED fitted
       /\ \E x \in (IF calls = <<>> THEN Fits \X {q.n}
                    ELSE Thin(Refits, LAMBDA y : y[2] + (IF y[1] = "fit" THEN 0 ELSE 1))) :
            LET r == [q EXCEPT !.n = x[2]] IN
            q' = r /\ store' = Stored(r) /\ Log([op |-> x[1], m |-> x[2], h |-> 0])
Transform == /\ Len(calls) \in {1, 4}
             /\ \E m \in Thin({m \in (IF q.kind \in Kernel THEN {q.n} ELSE Sizes) : m > First(q)}, LAMBDA y : y) :
                  Log([op |-> "transform", m |-> m, h |-> 0])
             /\ UNCHANGED <<q, fitted, store>>
Uses == {x \in ({"predict", "inverse_transform", "transform"} \cap Calls(q)) \X Sizes \X {0, 1, 4} :
            /\ x[1] # "predict" => x[3] = 0
            /\ x[1] \in {"transform", "predict"} => x[2] > First(q) /\ (q.kind \in Kernel => x[2] = q.n)
            /\ x[1] = "transform" => Calls(q) \cap {"predict", "inverse_transform"} = {}}
Use == /\ Len(calls) = 2
       /\ \E op \in {x[1] : x \in Uses} :
            \E x \in Thin({y \in Uses : y[1] = op}, LAMBDA y : y[2] + y[3]) :
                Log([op |-> op, m |-> x[2], h |-> x[3]])
       /\ UNCHANGED <<q, fitted, store>>
Done == /\ Len(calls) = 5 /\ ~fitted /\ fitted' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([q |-> q, calls |-> calls])>>, IOEnv.OUT)
        /\ UNCHANGED <<q, store, calls>>
Next == Fit \/ Transform \/ Use \/ Done

Product(a, b) == IF a[2] = b[1] THEN <<a[1], b[2]>> ELSE <<>>
Know == calls # <<>>
Kept == Know => /\ (q.kind # "pw" => Weights(q, q.n) = store.weights)
                /\ Weights(q, q.n)[1] = store.weights[1]
                /\ "dictionary_" \in DOMAIN Attributes(q) => Attributes(q).dictionary_ = store.dictionary
                /\ q.kind = "km" => Attributes(q).transition_matrix_ = store.markov
\* weights times dictionary is what reconstruction returns: the data's form, coefficients of the samples for kernels
Composes == Know /\ "inverse_transform" \in Calls(q) =>
    \A m \in Sizes : Product(<<m, store.weights[2]>>, store.dictionary) = Result(q, "inverse_transform", m)
Returns == Know /\ q.kind \in Convex => \A m \in Sizes : Result(q, "inverse_transform", m) = Data(q, m)
\* advancing weights keeps their form, and a forecast has the form of the data
Forecasts == Know /\ "predict" \in Calls(q) => \A m \in Sizes :
    LET w == Product(<<m, store.weights[2]>>, store.markov) IN
    /\ w = <<m, store.weights[2]>>
    /\ Result(q, "predict", m) = IF q.kind = "km" THEN w ELSE Product(w, store.dictionary)
\* the samples without a forecast, counted one by one
Blanks == Know /\ q.kind \in Lagged => \A m \in Sizes, h \in {1, 2, 9} :
    Blank(q, "predict", m, h) = Cardinality({t \in 1..m : \E i \in 1..q.lags : t - q.lagset[i] + 1 < 1})
Counted == Know => Components(q) > 0 /\ \A f \in DOMAIN Attributes(q) : Size(Attributes(q)[f]) >= 1
==============================================================================
