------------------------------ MODULE SplineMC ------------------------------
(* Mass walks between the knots of a spline density in parcels.             *)
EXTENDS Spline
CONSTANTS N, Stop, Parcels, Grid       \* Grid: half the number of points of the check sums
VARIABLES c
Init == c = [j \in 1..N |-> IF j = (N + 1) \div 2 THEN FX ELSE 0]
Shift(i, j) == c[i] >= FX \div Parcels /\ c' = [c EXCEPT ![i] = @ - FX \div Parcels, ![j] = @ + FX \div Parcels]
Next == \E i, j \in 1..N : i # j /\ Abs(i - j) <= 1 /\ Shift(i, j)
Spec == Init /\ [][Next]_c
\* sums over an even grid that reaches beyond the last bump
H == (2 * Step(N, Stop) + ((N * Step(N, Stop)) \div 2)) \div Grid
Points == [k \in 1..(2 * Grid + 1) |-> (k - Grid - 1) * H]
Sum(f(_)) == FoldLeft(LAMBDA acc, k : acc + FxMul(H, f(Points[k])), 0, [k \in 1..Len(Points) |-> k])
V(x) == Value(N, Stop, c, x)
Whole == Near(Sum(V), FX, 120)
MeanOf == Near(Sum(LAMBDA x : FxMul(V(x), x)), First(N, Stop, c), 300)
Variance == Near(Sum(LAMBDA x : FxMul(FxMul(V(x), x), x)), Spread(N, Stop, c), 1200)
NonNegative == \A k \in 1..Len(Points) : V(Points[k]) >= 0
\* bumps on neighbouring knots add up to one
Unity == \A u \in {0, 5000, 16384, 32768, 50000, 65535} : Near(Bump(u) + Bump(u - FX) + Bump(u + FX) + Bump(u - 2 * FX), FX, 6)
SmoothEnough == \A u \in {0, FX, 2 * FX} : Near(Bump(u + 60), Bump(u - 60), 70)
=============================================================================
