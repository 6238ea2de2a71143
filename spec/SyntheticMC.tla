----------------------------- MODULE SyntheticMC -----------------------------
(* Sampling by the draw: over a fine grid of draws every category comes out *)
(* as often as its probability; categories fold as stated.                  *)
EXTENDS Synthetic
CONSTANTS Kinds, AGrid, TGrid, K       \* TGrid: locations + 262144
VARIABLES item, at
Rises == {<<-65536, 32768>>, <<-40000, 0, 90000>>, <<10000, 20000>>}
MakeItem(k, a, b) ==
    CASE k \in {"graded", "credit"} -> [kind |-> k, a |-> a, b |-> b]
      [] k = "guess" -> [kind |-> k, a |-> a, b |-> <<b[1]>>, c |-> 13107]
      [] k = "multi" -> [kind |-> k, a |-> <<a, -a>>, b |-> [j \in 1..Len(b) |-> -b[j]]]
      [] k = "unfold" -> [kind |-> k, a |-> a, delta |-> b[1], b |-> [j \in 1..Len(b) |-> -Abs(b[j]) - 6553 * j]]
Init == \E k \in Kinds : \E a \in AGrid : \E b \in Rises : \E t \in TGrid :
            /\ item = MakeItem(k, a, b) /\ at = IF k = "multi" THEN <<t - 262144, 30000>> ELSE <<t - 262144>>
Spec == Init /\ [][UNCHANGED <<item, at>>]_<<item, at>>
Law == TLCEval(AnswerLaw(item, at))
Whole == Near(ToFx(FoldLeft(LAMBDA acc, k : FAdd(acc, Law[k]), FZero, SetToSeq(DOMAIN Law))), FX, 8)
Sampling == LET p == Law  c == TLCEval([u \in 1..K |-> Pick(p, (u * (FX \div K)) - (FX \div (2 * K)))]) IN
    \A k \in DOMAIN p : Near(CountIf(c, LAMBDA x : x = k) * (FX \div K), ToFx(p[k]), (FX \div K) + 8)
\* the two statements of the unfolding model agree
Mirror == item.kind = "unfold" =>
    LET m == Len(item.b)
        rows == [j \in 1..(2 * m + 1) |-> IF j <= m THEN item.delta + item.b[j] ELSE IF j = m + 1 THEN item.delta ELSE item.delta - item.b[2 * m + 2 - j]]
        f == Folded([a |-> item.a, rows |-> rows, kind |-> "folded"], at[1])
    IN  DOMAIN f = DOMAIN Law /\ \A k \in DOMAIN f : Near(ToFx(f[k]), ToFx(Law[k]), 12)
=============================================================================
