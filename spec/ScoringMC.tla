------------------------------ MODULE ScoringMC ------------------------------
(* Respondents working through a small test.  They answer items one by one  *)
(* and may improve an answer; TLC follows every pattern of answers.         *)
EXTENDS Scoring
CONSTANTS NItems, Slopes, Places, Floors, Even      \* Places: difficulty + 131072
Nodes == <<<<-163840>>, <<-98304>>, <<-32768>>, <<32768>>, <<98304>>, <<163840>>>>
W == IF Even THEN <<FFx(2000), FFx(10000), FFx(20000), FFx(20000), FFx(10000), FFx(2000)>>
                  ELSE <<FFx(9000), FFx(4000), FFx(20000), FFx(9000), FFx(17000), FFx(2000)>>
VARIABLES items, p, m       \* m: where the respondent stands
vars == <<items, p, m>>
Kinds == {[a |-> a, b |-> <<b - 131072>>, c |-> c, kind |-> IF c = 0 THEN "graded" ELSE "guess"] : a \in Slopes, b \in Places, c \in Floors}
Tab(it) == TLCEval(TableAt(it, Nodes))
M(q) == TLCEval(PosteriorMean(Tab(items), Nodes, W, q, 1))
Init == items \in [1..NItems -> Kinds] /\ p = [i \in 1..NItems |-> MISSING] /\ m = M(p)
Answer(i, k) == LET q == [p EXCEPT ![i] = k] IN p' = q /\ m' = M(q) /\ UNCHANGED items
Next == \E i \in 1..NItems : \E k \in 0..1 : (p[i] = MISSING \/ (p[i] = 0 /\ k = 1)) /\ Answer(i, k)
Spec == Init /\ [][Next]_vars

InRange == m >= -163840 /\ m <= 163840
\* the mean is where the probability-weighted distances cancel
Balanced == LET v == Weighted(Tab(items), W, p) IN
    Near(ToFx(FDiv(FSum([q \in 1..Len(Nodes) |-> FMul(v[q], FFx(Nodes[q][1] - m))]), Share(v))), 0, 24)
\* an unanswered item is no item
Short == LET k == {i \in 1..NItems : p[i] # MISSING} IN
    IF k = {} THEN Near(m, ToFx(FDiv(FSum([q \in 1..Len(Nodes) |-> FMul(W[q], FFx(Nodes[q][1]))]), Share(W))), 4)
    ELSE LET s == SetToSeq(k) IN Near(m, PosteriorMean(Tab([j \in 1..Len(s) |-> items[s[j]]]), Nodes, W, [j \in 1..Len(s) |-> p[s[j]]], 1), 24)
\* better answers never lower the mean
Rises == [][\A i \in 1..NItems : (p[i] = 0 /\ p'[i] = 1) => m' >= m - 24]_vars
\* the reflected test, answered the other way round, reflects the mean
Reflects == Even =>
    LET back == [i \in 1..NItems |-> [items[i] EXCEPT !.b = <<-items[i].b[1]>>]]
        turned == [i \in 1..NItems |-> IF p[i] = MISSING THEN MISSING ELSE 1 - p[i]]
    IN  (\A i \in 1..NItems : items[i].c = 0) => Near(PosteriorMean(Tab(back), Nodes, W, turned, 1), -m, 24)
\* the equation of the maximum changes its sign once for items without a floor
Falls == (\A i \in 1..NItems : items[i].c = 0) =>
    \A t \in {-196608, -65536, 0, 65536} : LET f(x) == ToFx(Equation(items, <<[w |-> FX, m |-> 0, p |-> FX]>>, p, <<x>>, 1)) IN f(t) >= f(t + 65536)
\* and is the slope of the logarithm of the posterior
LogPost(t) == FoldLeft(LAMBDA acc, i : IF p[i] = MISSING THEN acc ELSE acc + FLn(CategoryAt(items[i], <<t>>)[p[i]]), -(FxMul(t, t) \div 2), [i \in 1..NItems |-> i])
IsSlope == \A t \in {-131072, 0, 98304} :
    Near((LogPost(t + 8192) - LogPost(t - 8192)) * 4, ToFx(Equation(items, <<[w |-> FX, m |-> 0, p |-> FX]>>, p, <<t>>, 1)), 500)
=============================================================================
