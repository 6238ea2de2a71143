---------------------------- MODULE PopulationMC ----------------------------
(* Populations of small tests.  Two persons' views of the same data compete:*)
(* the parameters the population really has, and a rival set.  The rival    *)
(* walks over a grid of parameters and never explains the data better.      *)
EXTENDS Population
CONSTANTS Kind, NSteps, AGrid, BGrid       \* BGrid: thresholds + 131072
Nodes == <<-98304, 0, 98304>>
Weights == <<FFx(16384), FFx(32768), FFx(16384)>>
Patterns(n) == [1..n -> 0..NSteps]
VARIABLES truth, rival
vars == <<truth, rival>>
Items == {[a |-> a, b |-> b, kind |-> Kind] : a \in AGrid, b \in {s \in [1..NSteps -> {x - 131072 : x \in BGrid}] : \A k \in 1..(NSteps - 1) : s[k] < s[k + 1]}}
Init == /\ truth \in {<<x, y>> : x \in Items, y \in Items} /\ rival = truth
Next == /\ \E i \in 1..Len(rival) : \E x \in Items : rival' = [rival EXCEPT ![i] = x]
        /\ UNCHANGED truth
Spec == Init /\ [][Next]_vars

Share(items) == LET tab == TLCEval(Table(items, Nodes)) IN TLCEval([p \in Patterns(Len(items)) |-> PatternShare(tab, Nodes, Weights, p)])
Fold(f(_), S) == FoldLeft(LAMBDA acc, x : FAdd(acc, f(x)), FZero, SetToSeq(S))
\* shares of all patterns make up the whole population
Complete == Near(ToFx(Fold(LAMBDA p : Share(truth)[p], Patterns(Len(truth)))), FX, 12)
\* the share of endorsements of an item is its marginal probability
Consistent == \A i \in 1..Len(truth) : Kind = "graded" =>
    Near(ToFx(Fold(LAMBDA p : IF p[i] > 0 THEN Share(truth)[p] ELSE FZero, Patterns(Len(truth)))),
         MarginalFx(Nodes, Weights, truth[i].a, truth[i].b[1]), 12)
\* an unanswered item leaves the population of the others
Ignorable == LET tab == TLCEval(Table(truth, Nodes)) IN
    \A k \in 0..NSteps : Near(ToFx(PatternShare(tab, Nodes, Weights, <<k, MISSING>>)),
                              ToFx(Fold(LAMBDA p : IF p[1] = k THEN Share(truth)[p] ELSE FZero, Patterns(2))), 12)
\* nobody explains the data better than the truth (expected log-likelihood, fx per respondent)
LogLik(s, m) == FoldLeft(LAMBDA acc, p : acc + FxMul(ToFx(s[p]), FLn(m[p])), 0, SetToSeq(DOMAIN s))
TruthWins == LET s == Share(truth)  m == Share(rival) IN LogLik(s, m) <= LogLik(s, s) + 24
=============================================================================
