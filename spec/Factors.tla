------------------------------- MODULE Factors -------------------------------
(* Factor analysis over fixed point matrices: eigen-relations, exact factor *)
(* matrices R = L L' + diag(U), rotations, angles, entropy.                 *)
EXTENDS Association

Rows(m) == 1..Len(m)
Cols(m) == IF m = <<>> THEN {} ELSE 1..Len(m[1])
SDot(a, b) == FoldLeft(LAMBDA acc, k : acc + FxMul(a[k], b[k]), 0, [k \in 1..Len(a) |-> k])
Column(m, f) == [i \in Rows(m) |-> m[i][f]]
Transposed(m) == [f \in Cols(m) |-> Column(m, f)]
Times(a, b) == LET t == TLCEval(Transposed(b)) IN TLCEval([i \in Rows(a) |-> TLCEval([f \in 1..Len(t) |-> SDot(a[i], t[f])])])
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FX ELSE 0]]
Shaped(m, n, k) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = k /\ \A j \in 1..k : IsNum(m[i][j])
Reproduces(R, L, U, tol) == \A i \in Rows(R) : \A j \in 1..i : Near(SDot(L[i], L[j]) + (IF i = j THEN U[i] ELSE 0), R[i][j], tol)
\* columns of L: eigenvectors of R scaled to their eigenvalues
EigenColumn(R, L, lam, f, tol) ==
    LET c == TLCEval(Column(L, f))
    IN  /\ Near(SDot(c, c), lam[f], tol)
        /\ \A i \in Rows(R) : Near(SDot(R[i], c), FxMul(lam[f], c[i]), tol)
Falling(lam, tol) == \A f \in 1..(Len(lam) - 1) : lam[f] >= lam[f + 1] - tol
Perpendicular(L, tol) == \A f, g \in Cols(L) : f # g => Near(SDot(Column(L, f), Column(L, g)), 0, tol)
Orthogonal(Q, tol) == LET n == Len(Q) IN Shaped(Q, n, n) /\ \A i, j \in 1..n : Near(SDot(Q[i], Q[j]), IF i = j THEN FX ELSE 0, tol)
Trace(m) == SumSeq([i \in Rows(m) |-> m[i][i]])
SymmetricMat(m, tol) == \A i \in Rows(m) : \A j \in 1..i : Near(m[i][j], m[j][i], tol)

-----------------------------------------------------------------------------
(* Angles: into -pi..pi, then products of sines *)
Wrap(x) == LET y == x % (2 * PiFx) IN IF y > PiFx THEN y - 2 * PiFx ELSE y
SinAny(x) == Sin(Wrap(x))
CosAny(x) == Sin(Wrap(x + PiFx \div 2))
Sphere(t) == LET n == Len(t)
                 prod(k) == FoldLeft(LAMBDA acc, j : FxMul(acc, SinAny(t[j])), FX, [j \in 1..(k - 1) |-> j])
             IN  [k \in 1..(n + 1) |-> IF k = n + 1 THEN prod(k) ELSE FxMul(prod(k), CosAny(t[k]))]
Length2(v) == SDot(v, v)
\* same direction: v x w = 0 component by component, and the scalar product positive
SameDirection(v, w, tol) ==
    LET s == ToFx(FSqrt(FFx(SDot(v, v)))) IN
    \A k \in 1..Len(v) : Near(v[k], FxMul(s, w[k]), tol)

-----------------------------------------------------------------------------
(* Entropy of the shares of squares, row by row, fx *)
RowEntropy(r) ==
    LET sq == TLCEval([k \in 1..Len(r) |-> FMul(FFx(r[k]), FFx(r[k]))])
        total == FSum(sq)
    IN  ToFx(FNeg(FSum([k \in 1..Len(r) |-> LET p == FDiv(sq[k], total) IN IF ~FPos(p) \/ FLess(p, <<16384, -40>>) THEN FZero ELSE FMul(p, FFx(FLn(p)))])))
Entropy(m) == SumSeq([i \in Rows(m) |-> RowEntropy(m[i])])

-----------------------------------------------------------------------------
(* One factor behind three or more items, by principal axes: the iteration  *)
(* on unique variances                                                      *)
Reduced(R, u) == [i \in Rows(R) |-> [j \in Rows(R) |-> R[i][j] - IF i = j THEN u[i] ELSE 0]]
Normed(v) == LET s == ToFx(FSqrt(FFx(SDot(v, v)))) IN [k \in 1..Len(v) |-> ToFx(FDiv(FFx(v[k]), FFx(s)))]
Apply(m, v) == [i \in Rows(m) |-> SDot(m[i], v)]
Leading(m) == FoldLeft(LAMBDA v, k : TLCEval(Normed(TLCEval(Apply(m, v)))), [i \in Rows(m) |-> FX], [k \in 1..25 |-> k])
AxisStep(R, u) == LET m == TLCEval(Reduced(R, u))
                      v == TLCEval(Leading(m))
                      lam == SDot(v, TLCEval(Apply(m, v)))
                  IN  TLCEval([i \in Rows(R) |-> R[i][i] - FxMul(lam, FxMul(v[i], v[i]))])
=============================================================================
