------------------------------ MODULE Classical ------------------------------
(* Classical test statistics of a table [item][respondent] of ordinal       *)
(* answers with missing cells.                                              *)
EXTENDS Association
MISS == -99999
Items(x) == 1..Len(x)
Persons(x) == 1..Len(x[1])
Valid(x, i) == SelectSeq([p \in Persons(x) |-> p], LAMBDA p : x[i][p] # MISS)
Answers(x, i) == SelectSeq(x[i], LAMBDA v : v # MISS)
CountOf(x, i) == Len(Answers(x, i))
Ratio(a, b) == ToFx(FDiv(FInt(a), FInt(b)))         \* small integers only
MeanFx(v) == LET n == Len(v)  s == SumSeq(v) IN ((s \div n) * FX) + (((s % n) * FX) \div n)
\* variance (fx) of integers, divisor n - 1: exact sums
Variance(v) == LET n == Len(v)
                   s == SumSeq(v)
                   q == n * FoldLeft(LAMBDA acc, a : acc + a * a, 0, v) - s * s
               IN  IF n < 2 THEN FZero ELSE FDiv(FInt(q), FInt(n * (n - 1)))
StdFx(v) == ToFx(FSqrt(Variance(v)))
\* of fixed point numbers
MeanOf(v) == LET s == SumSeq(v) IN (2 * s + Len(v)) \div (2 * Len(v))
SumSq(v) == FSum([k \in 1..Len(v) |-> FMul(FFx(v[k]), FFx(v[k]))])
Centred(v) == LET m == MeanOf(v) IN [k \in 1..Len(v) |-> v[k] - m]
\* a respondent's mean over the valid answers to items in I (a sequence), NaN without any
PersonMean(x, I, p) == LET v == SelectSeq([k \in 1..Len(I) |-> x[I[k]][p]], LAMBDA a : a # MISS) IN IF v = <<>> THEN NaN ELSE MeanFx(v)
Others(x, i) == SelectSeq([k \in Items(x) |-> k], LAMBDA k : k # i)
Correlation(u, v) ==
    LET a == TLCEval(Centred(u))  b == TLCEval(Centred(v))
        va == SumSq(a)  vb == SumSq(b)
        c == FSum([k \in 1..Len(u) |-> FMul(FFx(a[k]), FFx(b[k]))])
    IN  IF ~FPos(va) \/ ~FPos(vb) THEN NaN ELSE ToFx(FDiv(c, FMul(FSqrt(va), FSqrt(vb))))
\* respondents who answered item i and something else
Paired(x, i) == SelectSeq([p \in Persons(x) |-> p], LAMBDA p : x[i][p] # MISS /\ PersonMean(x, Others(x, i), p) # NaN)
RestScores(x, i) == [k \in 1..Len(Paired(x, i)) |-> PersonMean(x, Others(x, i), Paired(x, i)[k])]
OwnAnswers(x, i) == [k \in 1..Len(Paired(x, i)) |-> x[i][Paired(x, i)[k]]]
ItemRest(x, i) == LET q == TLCEval(Paired(x, i)) IN
    Correlation(TLCEval([k \in 1..Len(q) |-> PersonMean(x, Others(x, i), q[k])]), TLCEval([k \in 1..Len(q) |-> x[i][q[k]] * FX]))
\* over items I: n/(n-1) (1 - sum of item variances / (n^2 variance of person means))
Alpha(x, I) ==
    LET n == Len(I)
        iv == FSum([k \in 1..n |-> Variance(Answers(x, I[k]))])
        pm == TLCEval(SelectSeq([p \in Persons(x) |-> PersonMean(x, I, p)], LAMBDA m : m # NaN))
        pv == IF Len(pm) < 2 THEN FZero ELSE FDiv(SumSq(Centred(pm)), FInt(Len(pm) - 1))
        r == IF ~FPos(pv) THEN FZero ELSE FDiv(iv, FMul(FInt(n * n), pv))
    IN  IF n < 2 \/ Len(pm) < 2 \/ ~FPos(pv) THEN NaN ELSE ToFx(FMul(FDiv(FInt(n), FInt(n - 1)), FSub(FOne, r)))
All(x) == [k \in Items(x) |-> k]
\* the likelihood equation of the polyserial correlation of the rest score with the item
ZOf(v) == LET c == TLCEval(Centred(v))
              s == FSqrt(FDiv(SumSq(c), FInt(Len(c) - 1)))
          IN  [k \in 1..Len(c) |-> ToFx(FDiv(FFx(c[k]), s))]
Levels(v) == SetToSortSeq(Range(v), LAMBDA a, b : a < b)
=============================================================================
