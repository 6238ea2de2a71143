---------------------------- MODULE AssociationMC ----------------------------
(* The numbers of Association against each other, for every combination of a*)
(* grid of correlations and thresholds; contingency tables of every pair of *)
(* short answer vectors.                                                    *)
EXTENDS Association
CONSTANTS Grid, Vals, N
VARIABLES h, k, r, v1, v2
Init == /\ h \in {(x - 5) * 13107 * 2 : x \in Grid} /\ k \in {(x - 5) * 13107 * 2 : x \in Grid} /\ r \in {(x - 5) * 13107 : x \in Grid} /\ Abs(r) < FX
        /\ v1 = <<>> /\ v2 = <<>>
     \/ /\ h = 0 /\ k = 0 /\ r = 0 /\ v1 \in [1..N -> Vals] /\ v2 \in [1..N -> Vals]
Spec == Init /\ [][UNCHANGED <<h, k, r, v1, v2>>]_<<h, k, r, v1, v2>>
Tol == 60
P(a, b, c) == ToFx(Cdf2(a, b, c))
Frechet == LET p == P(h, k, r) IN p >= MaxOf(0, ToFx(Cdf1(h)) + ToFx(Cdf1(k)) - FX) - Tol /\ p <= MinOf(ToFx(Cdf1(h)), ToFx(Cdf1(k))) + Tol
Exchange == Near(P(h, k, r), P(k, h, r), 6)
Reflect == Near(P(h, k, r) + P(h, -k, -r), ToFx(Cdf1(h)), Tol)
\* quadrant probability: P(0,0,r) = 1/4 + asin(r)/(2 pi)
Quadrant == h = 0 /\ k = 0 => Near(Sin(FxMul(P(0, 0, r) - 16384, 2 * PiFx)), r, Tol)
Rising == r + 13107 < FX => P(h, k, r + 13107) >= P(h, k, r) - Tol
\* the correlation of the even table solves the likelihood equation of its table
EvenScore == h = 0 /\ k = 0 =>
    \A a \in 2..18 : LET n == <<<<a, 20 - a>>, <<20 - a, a>>>>  rho == EvenRho(a, 20)
                         d == 1311 IN
        Abs(rho) + d < 60000 => PolychoricScore(n, <<0>>, <<0>>, rho - d)[1] > 0 /\ PolychoricScore(n, <<0>>, <<0>>, rho + d)[1] < 0
Sines == /\ Sin(0) = 0 /\ Near(Sin(PiFx \div 2), FX, 3) /\ Near(Sin(PiFx \div 6), FX \div 2, 3) /\ Near(Sin(-(PiFx \div 3)), -56756, 3)
         /\ Near(FxMul(Sin(r), Sin(r)) + FxMul(Sin(r + PiFx \div 2), Sin(r + PiFx \div 2)), FX, 12)
\* tables
T == Tabulate(v1, v2, 2, 3)
TableCounts == /\ Total(T) = Cardinality({p \in 1..Len(v1) : v1[p] \in 2..3 /\ v2[p] \in 2..3})
               /\ \A i, j \in 1..2 : T[i][j] = Tabulate(v2, v1, 2, 3)[j][i]
               /\ LET c == Clean(T) IN Total(c) = Total(T) /\ (\A i \in 1..Len(c) : RowSum(c, i) > 0) /\ Clean(c) = c
=============================================================================
