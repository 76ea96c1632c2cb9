-------------------------------- MODULE GramMC --------------------------------
(***************************************************************************)
(* Archetypal analysis of data and of its Gram matrix, run side by side in *)
(* exact arithmetic: the data side uses the residual X - G C X directly,   *)
(* the kernel side only K = X X'.  Their objectives, gradients, distances  *)
(* and updates agree in every state reached from every guess of a grid, so *)
(* the two are the same machine.  The guesses are written out for replay.  *)
(***************************************************************************)
EXTENDS Factorisation, FiniteSets, IOUtils, CSV, Json

CONSTANTS Points, Comps, Dims, Iters, Slice, Slices

Coords == {"0", "1", "-2"}
Cells(m) == [1..m -> Coords]
RowsOf(m) == CASE m = 1 -> {<<"1">>}
               [] m = 2 -> {<<"1", "0">>, <<"1/2", "1/2">>, <<"0", "1">>}
               [] OTHER -> {<<"1", "0", "0">>, <<"1/4", "1/2", "1/4">>, <<"0", "0", "1">>}
DataSets == {[i \in 1..Points |-> [j \in 1..Dims |-> f[i]]] : f \in [1..Points -> Coords]}
            \cup {[i \in 1..Points |-> [j \in 1..Dims |-> IF j = 1 THEN f[i] ELSE f[1 + (i % Points)]]] : f \in [1..Points -> Coords]}
Guesses == SetToSeq({[X |-> x, D |-> c, G |-> g] : x \in DataSets,
                      c \in [1..Comps -> RowsOf(Points)], g \in [1..Points -> RowsOf(Comps)]})

VARIABLES X, s, b, it
vars == <<X, s, b, it>>
Problem(x) == [kind |-> "aa", X |-> MMul(x, MT(x)), es |-> Zero, ew |-> Zero, lags |-> <<>>]
P == Problem(X)
st == [D |-> s.D, G |-> s.G, L |-> <<>>, P |-> <<>>]

Init == /\ \E i \in {j \in 1..Len(Guesses) : j % Slices = Slice} :
             /\ X = Guesses[i].X /\ s = [D |-> Guesses[i].D, G |-> Guesses[i].G]
             /\ CSVWrite("%1$s", <<ToJson(Guesses[i])>>, IOEnv.OUT)
        /\ b = "G" /\ it = 0

\* the data side
Residual == MSub(X, MMul(s.G, MMul(s.D, X)))
DataCost == MDot(Residual, Residual)
DataGrad(blk) ==
    IF blk = "G" THEN MScale("-2", MMul(Residual, MT(MMul(s.D, X))))
    ELSE MScale("-2", MMul(MT(s.G), MMul(Residual, MT(X))))
\* the kernel side
KernelCost == Cost(P, st)
KernelGrad(blk) == Grad(P, st, blk)[1]

Step(g, v) == MTrim(MScale("1/2", MAdd(v, ProjectRows(MSub(v, MScale("1/8", g))))))
Next == /\ it < Iters
        /\ s' = IF b = "G" THEN [s EXCEPT !.G = Step(DataGrad("G"), s.G)]
                ELSE [s EXCEPT !.D = Step(DataGrad("D"), s.D)]
        /\ b' = IF b = "G" THEN "D" ELSE "G"
        /\ it' = it + 1 /\ UNCHANGED X

SameCost == RNear(DataCost, KernelCost, "1e-40")
SameGradients == \A blk \in {"D", "G"} : MNear(DataGrad(blk), KernelGrad(blk), "1e-40")
SameDistances == \A i, j \in 1..Points :
    LET d == VSub(X[i], X[j]) K == P.X IN
    REq(VDot(d, d), RSub(RAdd(K[i][i], K[j][j]), RMul(Two, K[i][j])))
\* the two sides take the same step
Bisimilar == [][\A blk \in {b} : LET v == IF blk = "G" THEN s.G ELSE s.D IN
                 MNear(Step(KernelGrad(blk), v), IF blk = "G" THEN s'.G ELSE s'.D, "1e-40")]_vars
Feasible == RowsStochastic(s.D, "1e-40") /\ RowsStochastic(s.G, "1e-40")
==============================================================================
