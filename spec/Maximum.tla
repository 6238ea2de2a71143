------------------------------- MODULE Maximum -------------------------------
(* What marginal estimation looks for: item parameters under which the      *)
(* answers are most likely, on average over the latent trait.               *)
(*   items: see Scoring; nodes, w: the latent trait; pats[k] occurs n[k]    *)
(*   times.  Some routines search the thresholds as well, others always put *)
(*   them where the marginal probabilities equal the shares of the answers. *)
EXTENDS Scoring

Likelihood(tab, w, pats, n) == FoldLeft(LAMBDA acc, k : acc + n[k] * FLn(Share(Weighted(tab, w, pats[k]))), 0, [k \in 1..Len(n) |-> k])
\* the part of the other items, to which one item is added
Without(tab, w, pats, i) == TLCEval([k \in 1..Len(pats) |-> Weighted(tab, w, [pats[k] EXCEPT ![i] = MISSING])])
Adding(rest, pats, n, i, row) ==
    FoldLeft(LAMBDA acc, k : acc + n[k] * FLn(IF pats[k][i] = MISSING THEN Share(rest[k])
                                              ELSE FoldLeft(LAMBDA s, q : FAdd(s, FMul(rest[k][q], row[q][pats[k][i]])), FZero, [q \in 1..Len(row) |-> q])),
             0, [k \in 1..Len(n) |-> k])
Row(item, nodes) == TLCEval([q \in 1..Len(nodes) |-> TLCEval(CategoryAt(item, nodes[q]))])

\* share of answers k and higher among those who answered the item (float)
AtLeast(pats, n, i, k) ==
    LET yes == FoldLeft(LAMBDA acc, j : acc + IF pats[j][i] # MISSING /\ pats[j][i] >= k THEN n[j] ELSE 0, 0, [j \in 1..Len(n) |-> j])
        all == FoldLeft(LAMBDA acc, j : acc + IF pats[j][i] # MISSING THEN n[j] ELSE 0, 0, [j \in 1..Len(n) |-> j])
    IN  FDiv(FInt(yes), FInt(all))
\* and its marginal probability
Expected(row, w, k) == FoldLeft(LAMBDA acc, q : FAdd(acc, FMul(w[q], FoldLeft(LAMBDA s, j : FAdd(s, row[q][j]), FZero, [j \in 1..(Cardinality(DOMAIN row[q]) - k) |-> k + j - 1]))),
                                FZero, [q \in 1..Len(w) |-> q])
Edge == 6 * FX - 1500
Inside(item, k) == IF item.kind = "multi" THEN TRUE ELSE Abs(item.b[k]) < Edge
\* for densities which do not quite have mass one within the bounds, both sides are taken as they are
Reproduces(item, row, w, pats, n, i, tol) ==
    \A k \in 1..Steps(item) : Inside(item, k) => Near(ToFx(Expected(row, w, k)), ToFx(AtLeast(pats, n, i, k)), tol)

-----------------------------------------------------------------------------
(* The mean of an item's discrimination under a Rayleigh prior (from 1/4    *)
(* on) with a given scale, and the mean of that scale under a lognormal one *)
Quarter == 16384
Rayleigh(x, s) ==       \* up to factors which do not depend on x
    LET u == FDiv(FFx(x - Quarter), FFx(s)) IN FMul(u, FExp(-(ToFx(FMul(u, u)) \div 2)))
Highest(ll) == FoldLeft(LAMBDA acc, v : MaxOf(acc, v), ll[1], ll)
MeanUnder(x, v) == ToFx(FDiv(FSum([j \in 1..Len(x) |-> FMul(v[j], FFx(x[j]))]), FSum(v)))
DiscriminationMean(alpha, wa, ll, s) ==
    LET top == Highest(ll) IN MeanUnder(alpha, TLCEval([j \in 1..Len(alpha) |-> FMul(FMul(wa[j], Rayleigh(alpha[j], s)), FExp(MaxOf(ll[j] - top, -3000000)))]))
LogNormal(s) == LET y == FLn(FFx(s)) * 4 IN FDiv(FExp(-(ToFx(FMul(FFx(y), FFx(y))) \div 2)), FFx(s))     \* standard deviation 1/4
\* (x - 1/4)/s^2 exp(-(x - 1/4)^2 / (2 s^2)); the factors x - 1/4 are the same for every s
\* times[i]: how often item i counts
ScaleMean(scales, ws, disc, times) ==
    LET up(s) == FoldLeft(LAMBDA acc, i : LET u == FDiv(FFx(disc[i] - Quarter), FFx(s)) IN acc - times[i] * ((ToFx(FMul(u, u)) \div 2) + 2 * FLn(FFx(s))),
                          0, [i \in 1..Len(disc) |-> i])
        lg == TLCEval([j \in 1..Len(scales) |-> up(scales[j])])
        top == Highest(lg)
    IN  MeanUnder(scales, TLCEval([j \in 1..Len(scales) |-> FMul(FMul(ws[j], LogNormal(scales[j])), FExp(MaxOf(lg[j] - top, -3000000)))]))
=============================================================================
