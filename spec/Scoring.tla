------------------------------- MODULE Scoring -------------------------------
(* Where a respondent stands, given the answers, the items and the latent   *)
(* density: posterior means over quadrature nodes, and the likelihood and   *)
(* posterior equations.                                                     *)
(*  item kinds: "graded", "credit" (see Population), "guess" (adds a floor  *)
(*  item.c), "unfold" (item.delta, thresholds b), "multi" (item.a one slope *)
(*  per factor, item.b falling intercepts)                                  *)
EXTENDS Population
J == INSTANCE Joint

AbsMul(x, y) == FxMul(Abs(x), Abs(y))
Guess(item, t) ==
    LET s == Logistic(FxMul(item.a, t - item.b[1]))
        hit == FAdd(FFx(item.c), FMul(FFx(FX - item.c), s))
    IN  [k \in 0..1 |-> IF k = 1 THEN hit ELSE FMul(FFx(FX - item.c), Logistic(-FxMul(item.a, t - item.b[1])))]
\* the answer folds around delta: category k stands for being k steps from the far end on either side
Unfold(item, t) ==
    LET m == Steps(item)
        x == [k \in 0..m |-> AbsMul(FxMul(item.a, t - item.delta), (2 * (m + 1 - k) - 1) * (FX \div 2))]
        z == TLCEval([k \in 0..m |-> x[k] - FxMul(item.a, FoldLeft(LAMBDA acc, j : acc + item.b[j], 0, [j \in 1..k |-> j]))])
        top == CHOOSE k \in 0..m : \A j \in 0..m : z[j] <= z[k]
        u == TLCEval([k \in 0..m |-> FMul(FExp(z[k] - z[top]), FAdd(FOne, FExp(MaxOf(-2 * x[k], -3000000))))])
        total == TLCEval(FoldLeft(LAMBDA acc, k : FAdd(acc, u[k]), FZero, [k \in 1..(m + 1) |-> k - 1]))
    IN  [k \in 0..m |-> FDiv(u[k], total)]
Dot(a, t) == FoldLeft(LAMBDA acc, f : acc + FxMul(a[f], t[f]), 0, [f \in 1..Len(a) |-> f])
Multi(item, t) ==
    LET x == Dot(item.a, t)
        z == [k \in 1..Steps(item) |-> x + item.b[k]]
    IN  [k \in 0..Steps(item) |-> IF k = 0 THEN Logistic(-z[1]) ELSE IF k = Steps(item) THEN Logistic(z[k]) ELSE Between(z[k], z[k + 1])]
\* t: the location on every factor
CategoryAt(item, t) == CASE item.kind = "guess" -> Guess(item, t[1]) [] item.kind = "unfold" -> Unfold(item, t[1])
                         [] item.kind = "multi" -> Multi(item, t) [] OTHER -> Category(item, t[1])
TableAt(items, nodes) == [i \in 1..Len(items) |-> [q \in 1..Len(nodes) |-> TLCEval(CategoryAt(items[i], nodes[q]))]]

-----------------------------------------------------------------------------
(* Posterior means *)
Weighted(tab, w, p) == TLCEval([q \in 1..Len(w) |-> FMul(w[q], AtNode(tab, p, q))])
Share(v) == FoldLeft(LAMBDA acc, x : FAdd(acc, x), FZero, v)
Mean(v, nodes, f) == LET s == Share(v) IN ToFx(FDiv(FoldLeft(LAMBDA acc, q : FAdd(acc, FMul(v[q], FFx(nodes[q][f]))), FZero, [q \in 1..Len(v) |-> q]), s))
PosteriorMean(tab, nodes, w, p, f) == Mean(Weighted(tab, w, p), nodes, f)
\* nodes of the product rule over n factors and their weights
RECURSIVE Product(_, _)
Product(th, n) == IF n = 1 THEN [q \in 1..Len(th) |-> <<th[q]>>]
                  ELSE LET m == Len(th)  r == TLCEval(Product(th, n - 1)) IN [q \in 1..(m * Len(r)) |-> Append(r[((q - 1) \div m) + 1], th[((q - 1) % m) + 1])]
RECURSIVE ProductWeights(_, _)
ProductWeights(w, n) == IF n = 1 THEN w
                        ELSE LET m == Len(w)  r == TLCEval(ProductWeights(w, n - 1)) IN [q \in 1..(m * Len(r)) |-> FMul(r[((q - 1) \div m) + 1], w[((q - 1) % m) + 1])]

-----------------------------------------------------------------------------
(* Equations of the maximum.  A prior is a mixture of normal densities:     *)
(* [w |-> weight, m |-> mean, p |-> 1/variance] (fx), none: the flat prior  *)
Bell(c, t) == FMul(FMul(FFx(c.w), FSqrt(FFx(c.p))), FExp(-FxMul(FxMul(Abs(t - c.m), Abs(t - c.m)), c.p) \div 2))
PriorSlope(prior, t) ==
    IF prior = <<>> THEN FZero
    ELSE FNeg(FDiv(FSum([k \in 1..Len(prior) |-> FMul(Bell(prior[k], t), FFx(FxMul(prior[k].p, t - prior[k].m)))]),
                   FSum([k \in 1..Len(prior) |-> Bell(prior[k], t)])))
\* derivative of the log-probability of answer k, in the direction of factor f
Slope(item, k, t, f) ==
    IF item.kind = "multi"
    THEN LET z(j) == Dot(item.a, t) + item.b[j]
             gap == IF k = 0 \/ k = Steps(item) THEN FZero ELSE LET u == FExp(item.b[k + 1] - item.b[k]) IN FDiv(u, FSub(FOne, u))
             lower == IF k = 0 THEN FZero ELSE FAdd(Logistic(-z(k)), gap)
             upper == IF k = Steps(item) THEN FZero ELSE FNeg(FAdd(Logistic(z(k + 1)), gap))
         IN  FMul(FFx(item.a[f]), FAdd(lower, upper))
    ELSE IF item.kind = "guess"
    THEN LET s == Logistic(FxMul(item.a, t[1] - item.b[1]))  miss == Logistic(-FxMul(item.a, t[1] - item.b[1])) IN
         IF k = 1 THEN FDiv(FMul(FMul(FFx(item.a), FFx(FX - item.c)), FMul(s, miss)), FAdd(FFx(item.c), FMul(FFx(FX - item.c), s)))
                  ELSE FMul(FFx(-item.a), s)
    ELSE J!ByTheta(item, k, t[1])
Equation(items, prior, p, t, f) ==
    FAdd(PriorSlope(prior, t[f]),
         FoldLeft(LAMBDA acc, i : IF p[i] = MISSING THEN acc ELSE FAdd(acc, Slope(items[i], p[i], t, f)), FZero, [i \in 1..Len(p) |-> i]))
\* a (local) maximum on -edge..edge in every direction: the derivative changes its sign within d, up to eps
AtMaximum(items, prior, p, t, d, edge, eps) ==
    \A f \in 1..Len(t) :
        LET g(x) == ToFx(Equation(items, prior, p, [t EXCEPT ![f] = x], f)) IN
        /\ IsNum(t[f]) /\ Abs(t[f]) <= edge + 1
        /\ (t[f] - d <= -edge \/ g(t[f] - d) >= -eps)
        /\ (t[f] + d >= edge \/ g(t[f] + d) <= eps)
Answered(p) == {i \in 1..Len(p) : p[i] # MISSING}
AllWrong(p) == Answered(p) # {} /\ \A i \in Answered(p) : p[i] = 0
AllRight(p) == Answered(p) # {} /\ \A i \in Answered(p) : p[i] = 1
NoEstimate(p) == Answered(p) = {} \/ AllWrong(p) \/ AllRight(p)
=============================================================================
