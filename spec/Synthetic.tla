------------------------------ MODULE Synthetic ------------------------------
(* Data made from a model: every answer of every respondent takes one draw  *)
(* of its own from the stream of the seed and is the category in whose      *)
(* share of the unit interval the draw lies.                                *)
EXTENDS Scoring
\* the unfolding model as it is stated: a credit item of 2m+1 thresholds around delta whose categories are paired from the ends
Folded(item, t) ==
    LET m == Len(item.rows)
        c == TLCEval(Credit([a |-> item.a, b |-> item.rows, kind |-> "credit"], t))
    IN  [k \in 0..((m - 1) \div 2) |-> FAdd(c[k], c[m - k])]
\* two answers, several dimensions, guessing
MultiGuess(item, t) == LET z == Dot(item.a, t) + item.b[1] IN
    [k \in 0..1 |-> IF k = 0 THEN FMul(FFx(FX - item.c), Logistic(-z)) ELSE FAdd(FFx(item.c), FMul(FFx(FX - item.c), Logistic(z)))]
AnswerLaw(item, t) == CASE item.kind = "folded" -> Folded(item, t[1]) [] item.kind = "multiguess" -> MultiGuess(item, t) [] OTHER -> CategoryAt(item, t)
\* the category of draw u (fx in 0..FX) under probabilities p over 0..m
Pick(p, u) == LET m == Cardinality(DOMAIN p) - 1
                  cum == [k \in 0..m |-> ToFx(FoldLeft(LAMBDA acc, j : FAdd(acc, p[j]), FZero, [j \in 1..(k + 1) |-> j - 1]))]
              IN  CHOOSE k \in 0..m : (k = m \/ u < cum[k]) /\ \A j \in 0..m : j < k => u >= cum[j]
\* c of m independent trials have an outcome of probability p (a float): within six standard deviations
Plausible(c, m, p) ==
    LET d == FAbs(FSub(FInt(c), FMul(FInt(m), p)))
        s == FSqrt(FMul(FMul(FInt(m), p), FSub(FOne, p)))
    IN  FLess(d, FAdd(FMul(FInt(6), s), FInt(6)))
\* what may be asked for: thresholds of the graded model rise, those of the unfolding model are odd in number and mirrored
\* around the middle one, intercepts of several dimensions fall, and there are at least two of them
Admitted(kind, b) ==
    \A i \in 1..Len(b) : LET n == Len(b[i]) IN
        /\ n >= 2
        /\ kind = "grm" => \A k \in 1..(n - 1) : b[i][k] < b[i][k + 1]
        /\ kind = "grm_md" => \A k \in 1..(n - 1) : b[i][k] > b[i][k + 1]
        /\ kind = "gum" => n % 2 = 1 /\ LET mid == b[i][(n + 1) \div 2] IN \A k \in 1..n : Near(b[i][k] - mid, mid - b[i][n + 1 - k], 2)
=============================================================================
