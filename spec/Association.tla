----------------------------- MODULE Association -----------------------------
(* Ordinal variables as cut latent normal variables: contingency tables,    *)
(* the bivariate normal distribution, and the likelihood equations of the   *)
(* polychoric and polyserial correlation.                                   *)
EXTENDS Num

-----------------------------------------------------------------------------
(* Contingency tables *)
Tabulate(v1, v2, start, stop) ==
    [i \in 1..(stop - start + 1) |-> [j \in 1..(stop - start + 1) |->
        Cardinality({p \in 1..Len(v1) : v1[p] = start + i - 1 /\ v2[p] = start + j - 1})]]
RowSum(t, i) == SumSeq(t[i])
ColSum(t, j) == SumSeq([i \in 1..Len(t) |-> t[i][j]])
\* without the empty rows and columns
Clean(t) ==
    LET w == IF t = <<>> THEN 0 ELSE Len(t[1])
        rows == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : RowSum(t, i) # 0)
        cols == SelectSeq([j \in 1..w |-> j], LAMBDA j : ColSum(t, j) # 0)
    IN  [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> t[rows[i]][cols[j]]]]
Total(t) == SumSeq([i \in 1..Len(t) |-> RowSum(t, i)])

-----------------------------------------------------------------------------
(* sin of a fixed point number in -pi .. pi, fixed point *)
PiFx == 205887
Sin(x) ==
    LET s == IF x < 0 THEN -1 ELSE 1
        y == IF Abs(x) > PiFx \div 2 THEN PiFx - Abs(x) ELSE Abs(x)
        q == FxMul(y, y)
        \* y (1 - y2/6 (1 - y2/20 (1 - y2/42 (1 - y2/72))))
        in4 == FX - (q \div 72)
        in3 == FX - (FxMul(q, in4) \div 42)
        in2 == FX - (FxMul(q, in3) \div 20)
        in1 == FX - (FxMul(q, in2) \div 6)
    IN  s * FxMul(y, in1)
\* Two evenly split items that agree for a of every 2h respondents of one half: p11 = a / (2h),
\* rho = sin(2 pi (p11 - 1/4))
EvenRho(agree, half) == Sin((((2 * agree - half) * 2048) \div (4 * half)) * 201 + ((((2 * agree - half) * 2048) % (4 * half)) * 201) \div (4 * half))

-----------------------------------------------------------------------------
(* Bivariate normal: density at fixed point h, k, correlation r; zero where  *)
(* a bound is infinite                                                      *)
Density2(h, k, r) ==
    IF ~IsNum(h) \/ ~IsNum(k) THEN FZero
    ELSE LET q == FX - FxMul(r, r)
             s == FAdd(FFx(FxMul(h, h) + FxMul(k, k)), FNeg(FFx(2 * FxMul(r, FxMul(h, k)))))
             z == ToFx(FDiv(s, FFx(2 * q)))
         IN  FDiv(FMul(FFx(10430), FExp(-z)), FSqrt(FFx(q)))
Cdf1(h) == IF h = PInf THEN FOne ELSE IF h = NInf THEN FZero ELSE NormalCdf(h)
GaussNodes == <<1301, 6663, 15546, 26757, 38779, 49990, 58873, 64235>>
GaussWeights == <<3317, 7287, 10279, 11885, 11885, 10279, 7287, 3317>>
\* P(X <= h, Y <= k): the derivative in the correlation is the density (Plackett)
Cdf2(h, k, r) ==
    IF h = NInf \/ k = NInf THEN FZero
    ELSE IF h = PInf THEN Cdf1(k) ELSE IF k = PInf THEN Cdf1(h)
    ELSE FAdd(FMul(Cdf1(h), Cdf1(k)),
              FMul(FFx(r), FSum([i \in 1..8 |-> FMul(FFx(GaussWeights[i]), Density2(h, k, FxMul(r, GaussNodes[i])))])))
\* a function over corners 0..n, 0..m -> rectangle differences
Rect(c, i, j) == FSub(FSub(c[i][j], c[i - 1][j]), FSub(c[i][j - 1], c[i - 1][j - 1]))
Bound(t, i) == IF i = 0 THEN NInf ELSE IF i = Len(t) + 1 THEN PInf ELSE t[i]
\* derivative of the log-likelihood of table n with thresholds t1 (rows), t2 (columns)
PolychoricScore(n, t1, t2, r) ==
    LET R == Len(t1) + 1  C == Len(t2) + 1
        d == TLCEval([i \in 0..R |-> [j \in 0..C |-> Density2(Bound(t1, i), Bound(t2, j), r)]])
        p == TLCEval([i \in 0..R |-> [j \in 0..C |-> Cdf2(Bound(t1, i), Bound(t2, j), r)]])
        Cell(i, j) == IF n[i][j] = 0 THEN FZero
                      ELSE LET pr == Rect(p, i, j)
                           IN  FMul(FInt(n[i][j]), FDiv(Rect(d, i, j), IF FLess(pr, <<16384, -30>>) THEN <<16384, -30>> ELSE pr))
    IN  FSum([i \in 1..R |-> FSum([j \in 1..C |-> Cell(i, j)])])
\* thresholds cut the marginal shares off
Cuts(sums, t) ==
    /\ Len(t) = Len(sums) - 1
    /\ \A i \in 1..Len(t) : Near(ToFx(NormalCdf(t[i])),
            ToFx(FDiv(FInt(SumSeq(SubSeq(sums, 1, i))), FInt(SumSeq(sums)))), 20)

\* density over the remaining tail at u >= 4 (continued fraction)
Hazard(u) == LET q(a, d) == ToFx(FDiv(FInt(a), FFx(d))) IN u + q(1, u + q(2, u + q(3, u + q(4, u + q(5, u)))))
\* z: standardised continuous values (fx), y: category 1..Len(t)+1 of every respondent
PolyserialScore(z, y, t, r) ==
    LET q == FSqrt(FFx(FX - FxMul(r, r)))
        U(b, x) == ToFx(FDiv(FFx(b - FxMul(r, x)), q))
        D(b, x) == IF ~IsNum(b) THEN FZero ELSE FMul(NormalPdf(U(b, x)), FFx(FxMul(r, b) - x))
        \* differences of the distribution function in the thinner tail
        P(lo, hi, x) == LET u == IF IsNum(lo) THEN U(lo, x) ELSE lo
                            v == IF IsNum(hi) THEN U(hi, x) ELSE hi
                        IN  IF u > 0 THEN FSub(Cdf1(IF u = PInf THEN NInf ELSE -u), Cdf1(IF v = PInf THEN NInf ELSE -v))
                            ELSE FSub(Cdf1(v), Cdf1(u))
        \* far out: everything divided by the density of the nearer bound, near the bound far
        Far(near, far, x) ==
            LET u == Abs(U(near, x))
                e == IF ~IsNum(far) THEN FZero ELSE LET v == Abs(U(far, x)) IN FExp((FxMul(u, u) - FxMul(v, v)) \div 2)
                w == IF ~IsNum(far) THEN FZero ELSE FDiv(e, FFx(Hazard(Abs(U(far, x)))))
            IN  FDiv(FSub(FFx(FxMul(r, near) - x), IF ~IsNum(far) THEN FZero ELSE FMul(e, FFx(FxMul(r, far) - x))), FSub(FDiv(FOne, FFx(Hazard(u))), w))
        One(k) == LET lo == Bound(t, y[k] - 1)  hi == Bound(t, y[k])
                  IN  IF IsNum(lo) /\ U(lo, z[k]) > 4 * FX THEN FNeg(Far(lo, hi, z[k]))
                      ELSE IF IsNum(hi) /\ U(hi, z[k]) < -4 * FX THEN Far(hi, lo, z[k])
                      ELSE FDiv(FSub(D(hi, z[k]), D(lo, z[k])), P(lo, hi, z[k]))
    IN  FSum([k \in 1..Len(y) |-> One(k)])
\* mean zero, squares summing to n - 1
Standard(z) ==
    /\ Abs(SumSeq(z)) <= 2 * Len(z)
    /\ LET s == ToFx(FDiv(FSum([k \in 1..Len(z) |-> FMul(FFx(z[k]), FFx(z[k]))]), FInt(Len(z) - 1))) IN Near(s, FX, 40)
=============================================================================
