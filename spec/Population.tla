----------------------------- MODULE Population -----------------------------
(* A population that answers exactly as a model says: which share of it     *)
(* gives which pattern of answers.                                          *)
(*   item: [a |-> discrimination (fx), b |-> thresholds (fx, one per step), *)
(*          kind |-> "graded" or "credit"]; a dichotomous item has one step *)
(*   th, w: where the latent trait has mass (fx), and how much (floats)     *)
EXTENDS Lookup

Steps(item) == Len(item.b)
\* probability of categories 0..Steps at a location
\* sigma(x) - sigma(y) = sigma(x) sigma(-y) (1 - e^(y-x)) keeps small probabilities precise
Between(x, y) == FMul(FMul(Logistic(x), Logistic(-y)), FSub(FOne, FExp(y - x)))
Graded(item, t) ==
    LET z == [k \in 1..Steps(item) |-> FxMul(item.a, t - item.b[k])]
    IN  [k \in 0..Steps(item) |-> IF k = 0 THEN Logistic(-z[1]) ELSE IF k = Steps(item) THEN Logistic(z[k]) ELSE Between(z[k], z[k + 1])]
Credit(item, t) ==
    LET z == TLCEval([k \in 0..Steps(item) |-> FoldLeft(LAMBDA acc, j : acc + FxMul(item.a, t - item.b[j]), 0, [j \in 1..k |-> j])])
        top == CHOOSE k \in 0..Steps(item) : \A j \in 0..Steps(item) : z[j] <= z[k]
        u == TLCEval([k \in 0..Steps(item) |-> FExp(z[k] - z[top])])
        total == TLCEval(FoldLeft(LAMBDA acc, k : FAdd(acc, u[k]), FZero, [k \in 1..(Steps(item) + 1) |-> k - 1]))
    IN  [k \in 0..Steps(item) |-> FDiv(u[k], total)]
Category(item, t) == IF item.kind = "credit" THEN Credit(item, t) ELSE Graded(item, t)

\* tab[i][q][k]: probability of category k of item i at node q
Table(items, th) == [i \in 1..Len(items) |-> [q \in 1..Len(th) |-> TLCEval(Category(items[i], th[q]))]]
MISSING == -99999
\* an unanswered item leaves the probability as it is
AtNode(tab, p, q) == FoldLeft(LAMBDA acc, i : IF p[i] = MISSING THEN acc ELSE FMul(acc, tab[i][q][p[i]]), FOne, [i \in 1..Len(p) |-> i])
PatternShare(tab, th, w, p) ==
    FoldLeft(LAMBDA acc, q : FAdd(acc, FMul(w[q], AtNode(tab, p, q))), FZero, [q \in 1..Len(th) |-> q])

-----------------------------------------------------------------------------
(* The conditional Rasch model: shares of the patterns with a given score.  *)
(* e[i]: easiness exp(-a b) of item i                                       *)
Easiness(items) == [i \in 1..Len(items) |-> FExp(-FxMul(items[i].a, items[i].b[1]))]
PatternWeight(e, p) == FoldLeft(LAMBDA acc, i : IF p[i] = 1 THEN FMul(acc, e[i]) ELSE acc, FOne, [i \in 1..Len(p) |-> i])
Score(p) == FoldLeft(LAMBDA acc, x : acc + x, 0, p)
\* elementary symmetric function of order r by its recurrence
RECURSIVE Symmetric(_, _, _)
Symmetric(e, n, r) == IF r = 0 THEN FOne ELSE IF n < r THEN FZero
                      ELSE FAdd(Symmetric(e, n - 1, r), FMul(e[n], Symmetric(e, n - 1, r - 1)))
ConditionalShare(e, p) == FDiv(PatternWeight(e, p), Symmetric(e, Len(e), Score(p)))
=============================================================================
