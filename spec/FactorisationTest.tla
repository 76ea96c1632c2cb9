---- MODULE FactorisationTest ----
EXTENDS Factorisation
(* Gradients against finite differences, in exact arithmetic. *)
VARIABLE x
p0 == [kind |-> "mtd", X |-> <<<<"1", "2">>, <<"0.5", "-1">>, <<"3", "0.25">>, <<"-2", "1">>, <<"0", "1">>>>, es |-> "0.5", ew |-> "3", lags |-> <<1, 3>>]
s0 == [D |-> <<<<"1", "0">>, <<"0.3", "-1">>>>, G |-> <<<<"0.25", "0.75">>, <<"0.5", "0.5">>, <<"1", "0">>, <<"0.1", "0.9">>, <<"0.4", "0.6">>>>,
       L |-> <<"0.3", "0.7">>, P |-> <<<<<<"0.2", "0.6">>, <<"0.8", "0.4">>>>, <<<<"1", "0.5">>, <<"0", "0.5">>>>>>]
p1 == [kind |-> "aa", X |-> MMul(p0.X, MT(p0.X)), es |-> "0", ew |-> "0", lags |-> <<>>]
s1 == [D |-> <<<<"0.2", "0.1", "0.3", "0.4", "0">>, <<"0", "0", "0.5", "0.25", "0.25">>>>, G |-> s0.G, L |-> <<>>, P |-> <<>>]
h == "1e-12"
Bump(v, a, i, j) == [v EXCEPT ![a] = [@ EXCEPT ![i] = [@ EXCEPT ![j] = RAdd(@, h)]]]
Ok(p, s, b) == LET v == Get(s, b) g == Grad(p, s, b) c == Cost(p, s) IN
  \A a \in 1..Len(v) : \A i \in 1..Len(v[a]) : \A j \in 1..Len(v[a][i]) :
    RNear(RDiv(RSub(Cost(p, Put(s, b, Bump(v, a, i, j))), c), h), g[a][i][j], "1e-9")
ASSUME \A b \in {"D", "G", "P"} : Ok(p0, s0, b)
ASSUME \A b \in {"D", "G"} : Ok([p0 EXCEPT !.kind = "gpnh"], s0, b)
ASSUME Ok([p0 EXCEPT !.kind = "crom", !.ew = "1"], s0, "P")
ASSUME \A b \in {"D", "G"} : Ok(p1, s1, b)
\* the kernel error of the Gram matrix is the squared reconstruction error
ASSUME LET R == MSub(p0.X, MMul(s1.G, MMul(s1.D, p0.X))) IN REq(Cost(p1, s1), MDot(R, R))
Init == x = 0
Next == x' = x
====
