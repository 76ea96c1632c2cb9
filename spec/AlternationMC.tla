---------------------------- MODULE AlternationMC ----------------------------
(***************************************************************************)
(* The alternating scheme in exact arithmetic, from every initial guess of *)
(* a small grid: the factors stay in their constraint sets, no update      *)
(* worsens the objective, every update satisfies the step clauses, and a   *)
(* stationary state is kept.  The initial guesses are written out and      *)
(* replayed into the code.                                                 *)
(***************************************************************************)
EXTENDS Factorisation, FiniteSets, IOUtils, CSV, Json

CONSTANTS Kind, Iters, Slice, Slices

F(a, b) == RFrac(a, b)
Data == <<<<"0", "1">>, <<"2", "0">>, <<"1", "1">>, <<"4", "-1">>>>
Problem == IF Kind = "aa" THEN [kind |-> "aa", X |-> MMul(Data, MT(Data)), es |-> Zero, ew |-> Zero, lags |-> <<>>]
           ELSE IF Kind = "gpnh" THEN [kind |-> "gpnh", X |-> Data, es |-> "0.5", ew |-> Zero, lags |-> <<>>]
           ELSE [kind |-> Kind, X |-> Data, es |-> "0.25", ew |-> IF Kind = "crom" THEN One ELSE "3", lags |-> <<1, 2>>]
Opts == [gamma |-> "1e-4", s1 |-> "0.1", s2 |-> "0.9", amin |-> "1e-3", amax |-> "1e3", steptol |-> "1e-12", memory |-> 1]

Row2 == {<<"1", "0">>, <<"1/2", "1/2">>, <<"0", "1">>}
Row4 == {<<"1", "0", "0", "0">>, <<"0", "0", "1/2", "1/2">>, <<"1/4", "1/4", "1/4", "1/4">>}
Points == {<<"0", "0">>, <<"4", "0">>, <<"1", "-1">>}
Guesses ==
    {[D |-> <<a, b>>, G |-> <<g1, g2, g1, g3>>, L |-> <<l, RSub(One, l)>>, P |-> <<MT(<<q, q>>), MT(<<q, <<"0", "1">>>>)>>] :
        a \in (IF Kind = "aa" THEN Row4 ELSE Points), b \in (IF Kind = "aa" THEN Row4 ELSE Points),
        g1 \in Row2, g2 \in Row2, g3 \in Row2,
        l \in (IF Kind \in {"mtd", "crom"} THEN {"1/3", "1"} ELSE {"1"}),
        q \in (IF Kind \in {"mtd", "crom"} THEN {<<"1", "0">>, <<"1/2", "1/2">>} ELSE {<<"1", "0">>})}
GuessSeq == SetToSeq(Guesses)

VARIABLES s, it, blk, al, prev, lamb
vars == <<s, it, blk, al, prev, lamb>>
Bs == Blocks(Problem)

Init == /\ s \in {GuessSeq[i] : i \in {j \in 1..Len(GuessSeq) : j % Slices = Slice}}
        /\ it = 0 /\ blk = 1 /\ lamb = One
        /\ al = [b \in {"D", "G", "P"} |-> FirstAlpha]
        /\ prev = [s |-> s, b |-> "", al |-> FirstAlpha]
        /\ CSVWrite("%1$s", <<ToJson([data |-> Data, problem |-> Problem, guess |-> s])>>, IOEnv.OUT)

Update ==
    /\ it < Iters /\ blk <= Len(Bs)
    /\ LET b    == Bs[blk]
           v    == Get(s, b)
           g    == Grad(Problem, s, b)
           inc  == Increment(Problem, s, b, g, al[b].v)
           fold == Cost(Problem, s)
           zero == REq(BMaxAbs(inc), Zero)
           stops == IF zero THEN {[any |-> FALSE, step |-> One, tol |-> Zero]}
                    ELSE Stops(Problem, Opts, s, b, inc, BDot(inc, g), fold, fold, Zero, One, Zero, 0)
       IN \E st \in stops :
          /\ ~st.any
          /\ s' = Put(s, b, BTrim(BAdd(v, BScale(st.step, inc))))
          /\ lamb' = st.step
          /\ prev' = [s |-> s, b |-> b, al |-> al[b]]
          /\ LET mv == BSub(Get(s', b), v)
                 cu == Curvature(mv, g, Grad(Problem, s', b)) IN
             al' = [al EXCEPT ![b] = [known |-> TRUE, rho |-> Zero,
                       v |-> RTrim(NextAlpha(cu.beta, cu.sksk, Opts.amin, Opts.amax))]]
    /\ blk' = IF blk = Len(Bs) THEN 1 ELSE blk + 1
    /\ it' = IF blk = Len(Bs) THEN it + 1 ELSE it
Next == Update

Tiny == "1e-40"
Feasible == \A j \in 1..Len(Bs) : BlockFeasible(Problem, Bs[j], Get(s, Bs[j]), Tiny)
Descends == prev.b # "" => RLeq(Cost(Problem, s), RAdd(Cost(Problem, prev.s), Tiny))
Fraction == RLt(Zero, lamb) /\ RLeq(lamb, One)
\* the exact update satisfies what is demanded of recorded ones
Accepted == prev.b # "" => StepClauses(Problem, Opts, prev.s, prev.b, s, prev.al, Zero) = {}
\* and so does the spectral step estimated from the move
Spectral == prev.b # "" =>
    LET a == SpectralAfter(Problem, Opts, prev.s, prev.b, s, prev.al) IN
    a.known => RNear(a.v, al[prev.b].v, RMul(RAdd("1e-30", a.rho), al[prev.b].v))
\* some update is always possible: the search always stops
Stopping == it < Iters => ENABLED Update
==============================================================================
