------------------------------- MODULE Spline -------------------------------
(* Densities that are combinations of cubic B-splines on an evenly spaced   *)
(* grid around zero, and what makes one admissible: coefficients that are   *)
(* not negative, integral one, mean zero, variance one.                     *)
EXTENDS Num

\* B-spline of a distance measured in grid steps (fx); 4/6 at 0, 1/6 at 1, nothing from 2 on
Bump(u) ==
    LET x == Abs(u)  y == 2 * FX - x  sq == FxMul(x, x) IN
    IF x >= 2 * FX THEN 0
    ELSE IF x >= FX THEN (FxMul(FxMul(y, y), y) + 3) \div 6
    ELSE 43691 - sq + FxMul(sq, x) \div 2
\* n knots for a range that ends at stop; knots 1..n
Step(n, stop) == (2 * stop + (n + 3) \div 2) \div (n + 3)
Knot(n, stop, j) == (2 * stop * (2 * j - n - 1)) \div (2 * (n + 3))
Distance(n, stop, j, x) == LET d == x - Knot(n, stop, j) IN
    IF Abs(d) >= 4 * stop THEN 3 * FX ELSE ToFx(FDiv(FFx(d), FDiv(FFx(2 * stop), FInt(n + 3))))
Basis(n, stop, j, x) == Bump(Distance(n, stop, j, x))
\* value of the density at x
Value(n, stop, c, x) ==
    LET s == FoldLeft(LAMBDA acc, j : acc + FxMul(c[j], Basis(n, stop, j, x)), 0, [j \in 1..n |-> j])
    IN  ToFx(FDiv(FFx(s), FDiv(FFx(2 * stop), FInt(n + 3))))

Mass(c) == SumSeq(c)
First(n, stop, c) == FoldLeft(LAMBDA acc, j : acc + FxMul(c[j], Knot(n, stop, j)), 0, [j \in 1..n |-> j])
Second(n, stop, c) == FoldLeft(LAMBDA acc, j : acc + FxMul(c[j], FxMul(Knot(n, stop, j), Knot(n, stop, j))), 0, [j \in 1..n |-> j])
\* a B-spline of step d adds d*d/3 to the variance of its coefficients
Spread(n, stop, c) == Second(n, stop, c) + FxMul(Step(n, stop), Step(n, stop)) \div 3
Admissible(n, stop, c) ==
    /\ Len(c) = n /\ \A j \in 1..n : IsNum(c[j]) /\ c[j] >= -1 /\ c[j] <= FX + 2
    /\ Near(Mass(c), FX, 4 + n) /\ Near(First(n, stop, c), 0, 20 + 4 * n) /\ Near(Spread(n, stop, c), FX, 60 + 20 * n)
=============================================================================
