-------------------------------- MODULE Joint --------------------------------
(* Joint maximum likelihood: abilities that maximise every respondent's     *)
(* likelihood under the items' parameters, standardised, and items'         *)
(* parameters that maximise the likelihood of the answers given these       *)
(* abilities.  Both steps are described by their likelihood equations.      *)
(*   item: [a |-> discrimination (fx), b |-> thresholds (fx), kind]         *)
(*   a pattern of answers holds categories 0..Len(b), or MISSING            *)
EXTENDS Num
MISSING == -99999
Steps(item) == Len(item.b)

\* x is where a decreasing derivative f changes its sign, or the end of lo..hi it points to
AtMax(f(_), x, d, lo, hi) ==
    /\ IsNum(x) /\ x >= lo - 1 /\ x <= hi + 1
    /\ (x - d <= lo \/ f(x - d)[1] >= 0)
    /\ (x + d >= hi \/ f(x + d)[1] <= 0)
\* bisection for the same point, used where the specification computes it itself
RECURSIVE Bisect(_, _, _, _)
Bisect(f(_), lo, hi, n) == IF n = 0 THEN (lo + hi) \div 2
                           ELSE LET m == (lo + hi) \div 2 IN IF f(m)[1] > 0 THEN Bisect(f, m, hi, n - 1) ELSE Bisect(f, lo, m, n - 1)

-----------------------------------------------------------------------------
(* Logarithmic derivatives of the probability of category k at location t.  *)
Z(item, k, t) == FxMul(item.a, t - item.b[k])
\* e^-(gap) / (1 - e^-(gap)) between the boundaries of category k
Gap(item, k) == LET u == FExp(-FxMul(item.a, item.b[k + 1] - item.b[k])) IN FDiv(u, FSub(FOne, u))
\* with respect to the lower boundary's argument and to the upper one's
Lower(item, k, t) == IF k = 0 THEN FZero
    ELSE FAdd(Logistic(-Z(item, k, t)), IF k = Steps(item) THEN FZero ELSE Gap(item, k))
Upper(item, k, t) == IF k = Steps(item) THEN FZero
    ELSE FNeg(FAdd(Logistic(Z(item, k + 1, t)), IF k = 0 THEN FZero ELSE Gap(item, k)))
\* partial credit: probabilities of the categories
Credit(item, t) ==
    LET z == TLCEval([k \in 0..Steps(item) |-> FoldLeft(LAMBDA acc, j : acc + Z(item, j, t), 0, [j \in 1..k |-> j])])
        top == CHOOSE k \in 0..Steps(item) : \A j \in 0..Steps(item) : z[j] <= z[k]
        u == TLCEval([k \in 0..Steps(item) |-> FExp(z[k] - z[top])])
        total == TLCEval(FoldLeft(LAMBDA acc, k : FAdd(acc, u[k]), FZero, [k \in 1..(Steps(item) + 1) |-> k - 1]))
    IN  TLCEval([k \in 0..Steps(item) |-> FDiv(u[k], total)])
FFold(f(_), n) == FoldLeft(LAMBDA acc, k : FAdd(acc, f(k)), FZero, [k \in 1..n |-> k])
Partial(item, k, t, j) == FFold(LAMBDA i : t - item.b[i], j)

ByTheta(item, k, t) ==
    IF item.kind = "credit"
    THEN LET p == Credit(item, t) IN FMul(FFx(item.a), FSub(FInt(k), FFold(LAMBDA j : FMul(FInt(j), p[j]), Steps(item))))
    ELSE FMul(FFx(item.a), FAdd(Lower(item, k, t), Upper(item, k, t)))
ByThreshold(item, k, t, j) ==
    IF item.kind = "credit"
    THEN LET p == Credit(item, t)
             above == FFold(LAMBDA m : IF m >= j THEN p[m] ELSE FZero, Steps(item))
         IN  FMul(FFx(item.a), FSub(above, IF k >= j THEN FOne ELSE FZero))
    ELSE FMul(FFx(-item.a), IF k = j THEN Lower(item, k, t) ELSE IF k = j - 1 THEN Upper(item, k, t) ELSE FZero)
ByDiscrimination(item, k, t) ==
    IF item.kind = "credit"
    THEN LET p == Credit(item, t)
             c == TLCEval([j \in 0..Steps(item) |-> FoldLeft(LAMBDA acc, i : acc + t - item.b[i], 0, [i \in 1..j |-> i])])
         IN  FSub(FFx(c[k]), FFold(LAMBDA j : FMul(FFx(c[j]), p[j]), Steps(item)))
    ELSE FAdd(IF k = 0 THEN FZero ELSE FMul(FFx(t - item.b[k]), Lower(item, k, t)),
              IF k = Steps(item) THEN FZero ELSE FMul(FFx(t - item.b[k + 1]), Upper(item, k, t)))

-----------------------------------------------------------------------------
\* a respondent takes part with answers that are neither all lowest nor all highest
Informative(items, p) ==
    LET answered == {i \in 1..Len(p) : p[i] # MISSING}
    IN  /\ answered # {}
        /\ \E i \in answered : p[i] # 0
        /\ \E i \in answered : p[i] # Steps(items[i])
PersonEquation(items, p, t) == FFold(LAMBDA i : IF p[i] = MISSING THEN FZero ELSE ByTheta(items[i], p[i], t), Len(p))
\* weighted by how many respondents share the pattern: n[k] of pattern pats[k] at th[k]
ItemEquation(f(_, _), pats, n, th, i) == FFold(LAMBDA k : IF pats[k][i] = MISSING THEN FZero ELSE FMul(FInt(n[k]), f(pats[k][i], th[k])), Len(pats))

\* mean 0 and variance 1 (divisor one less than their number), each location counted w times
Standardised(th, w) ==
    LET n == SumSeq(w)
        mean == FoldLeft(LAMBDA acc, k : acc + w[k] * th[k], 0, [k \in 1..Len(th) |-> k]) \div n
        ss == FFold(LAMBDA k : FMul(FInt(w[k]), FFx(FxMul(th[k] - mean, th[k] - mean))), Len(th))
        sd == TLCEval(FSqrt(FDiv(ss, FInt(n - 1))))
    IN  [k \in 1..Len(th) |-> ToFx(FDiv(FFx(th[k] - mean), sd))]
=============================================================================
