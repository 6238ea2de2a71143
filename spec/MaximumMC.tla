------------------------------ MODULE MaximumMC ------------------------------
(* A search climbing through a grid of parameters on the exact population   *)
(* of a small test: it changes one item at a time and only to something     *)
(* more likely.  TLC follows every climb.                                   *)
EXTENDS Maximum
CONSTANTS Kind, As, Bs, Cs, NItems      \* Bs, Cs: values + 131072 (Cs: floor or delta)
Nodes == IF Kind = "multi" THEN <<<<-65536, -65536>>, <<-65536, 65536>>, <<65536, -65536>>, <<65536, 65536>>, <<0, 0>>>> ELSE <<<<-98304>>, <<0>>, <<98304>>>>
W == IF Kind = "multi" THEN <<FFx(10000), FFx(10000), FFx(10000), FFx(10000), FFx(25536)>> ELSE <<FFx(16384), FFx(32768), FFx(16384)>>
Items ==
    LET b(x) == <<x - 131072>> IN
    CASE Kind = "guess" -> {[a |-> a, b |-> b(x), c |-> c - 131072, kind |-> Kind] : a \in As, x \in Bs, c \in Cs}
      [] Kind = "unfold" -> {[a |-> a, b |-> b(x), delta |-> c - 131072, kind |-> Kind] : a \in As, x \in Bs, c \in Cs}
      [] Kind = "multi" -> {[a |-> <<a, c - 131072>>, b |-> b(x), kind |-> Kind] : a \in As, x \in Bs, c \in Cs}
Pats == SetToSeq([1..NItems -> 0..1])
Size == 4000
VARIABLES truth, counts, now
vars == <<truth, counts, now>>
Tab(it) == TLCEval(TableAt(it, Nodes))
Counts(it) == TLCEval([k \in 1..Len(Pats) |-> ToFx(FMul(FFx(Size), Share(Weighted(Tab(it), W, Pats[k]))))])
\* log-likelihood per respondent
LL(it) == Likelihood(Tab(it), W, Pats, counts) \div Size
Init == /\ truth \in [1..NItems -> Items] /\ counts = Counts(truth) /\ now \in [1..NItems -> Items]
        /\ \A i \in 2..NItems : now[i] = truth[i]
Climb(i, x) == LET new == [now EXCEPT ![i] = x] IN LL(new) > LL(now) + 2 /\ now' = new /\ UNCHANGED <<truth, counts>>
Next == \E i \in 1..NItems : \E x \in Items : Climb(i, x)
Spec == Init /\ [][Next]_vars

TruthWins == LL(now) <= LL(truth) + 12
\* taking an item out and putting it back changes nothing
Decomposes == \A i \in 1..NItems : Near(Adding(Without(Tab(now), W, Pats, i), Pats, counts, i, Row(now[i], Nodes)) \div Size, LL(now), 12)
\* an item which puts the probabilities where the shares are is told from one which does not
SharesOfTruth == \A i \in 1..NItems : Reproduces(truth[i], Row(truth[i], Nodes), W, Pats, counts, i, 40)
Shifted == \A i \in 1..NItems : ~Reproduces(truth[i], Row([truth[i] EXCEPT !.b = <<@[1] + 30000>>, !.a = @], Nodes), W, Pats, counts, i, 200)
\* means stay between the ends, and lean towards the more likely end
ASSUME LET al == <<40000, 80000, 160000>>  w1 == <<FOne, FOne, FOne>>
                 flat == DiscriminationMean(al, w1, <<0, 0, 0>>, FX) IN
    /\ flat > 40000 /\ flat < 160000
    /\ DiscriminationMean(al, w1, <<0, 0, 200000>>, FX) > flat /\ DiscriminationMean(al, w1, <<200000, 0, 0>>, FX) < flat
    /\ ScaleMean(al, w1, <<150000, 150000>>, <<1, 1>>) > ScaleMean(al, w1, <<60000, 60000>>, <<1, 1>>)
    /\ ScaleMean(al, w1, <<150000, 60000>>, <<2, 1>>) = ScaleMean(al, w1, <<150000, 150000, 60000>>, <<1, 1, 1>>)
=============================================================================
