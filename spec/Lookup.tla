------------------------------- MODULE Lookup -------------------------------
(* The marginal probability of endorsing an item under a latent density     *)
(* given by quadrature nodes and weights, and the difficulty at which it    *)
(* equals a given share.                                                    *)
(*   th: nodes (fx), w: density times weight (float), a: discrimination (fx)*)
EXTENDS Num

Marginal(th, w, a, b) ==
    FoldLeft(LAMBDA acc, k : FAdd(acc, FMul(w[k], Logistic(FxMul(a, th[k] - b)))), FZero, [k \in 1..Len(th) |-> k])
MarginalFx(th, w, a, b) == ToFx(Marginal(th, w, a, b))

\* b is where the marginal probability equals the share: it lies between those of b + d and b - d
Inverts(th, w, a, b, s, d, eps) ==
    /\ IsNum(b)
    /\ MarginalFx(th, w, a, b - d) >= s - eps
    /\ MarginalFx(th, w, a, b + d) <= s + eps

\* the same for shares next to zero, given as floats: relative to the share
InvertsRare(th, w, a, b, s, d) ==
    /\ IsNum(b)
    /\ FLess(FMul(FFx(64000), s), Marginal(th, w, a, b - d))
    /\ FLess(Marginal(th, w, a, b + d), FMul(FFx(67100), s))

\* which end of the search range a share belongs to, or "inside"
Side(th, w, a, lo, hi, s) ==
    IF s <= 0 THEN "high" ELSE IF s >= FX THEN "low"
    ELSE IF s > MarginalFx(th, w, a, lo) THEN "low"
    ELSE IF s < MarginalFx(th, w, a, hi) THEN "high" ELSE "inside"
=============================================================================
