----------------------------- MODULE ClassicalMC -----------------------------
EXTENDS Classical
CONSTANTS N, P, Vals
VARIABLES x
Init == x \in [1..N -> [1..P -> Vals \cup {MISS}]]
Spec == Init /\ [][UNCHANGED x]_x
Swapped == [i \in 1..N |-> [p \in 1..P |-> x[i][P + 1 - p]]]
Gained == [i \in 1..N |-> Append(x[i], MISS)]
Bounded == \A i \in 1..N : LET r == ItemRest(x, i) IN Paired(x, i) # <<>> /\ r # NaN => Abs(r) <= FX + 30
\* respondents in another order, and respondents without answers, change nothing
AnyOrder == \A i \in 1..N : Paired(x, i) # <<>> => Near(ItemRest(x, i), ItemRest(Swapped, i), 20)
NobodyElse == \A i \in 1..N : /\ CountOf(Gained, i) = CountOf(x, i)
                              /\ Paired(x, i) # <<>> => ItemRest(Gained, i) = ItemRest(x, i)
AlphaOk == LET Some == \E p \in 1..P : PersonMean(x, All(x), p) # NaN IN Some =>
    /\ Alpha(Gained, All(x)) = Alpha(x, All(x))
    /\ (\A i \in 1..N : \A p \in 1..P : x[i][p] # MISS) /\ Alpha(x, All(x)) # NaN => Alpha(x, All(x)) <= FX + 20
    \* (with missing cells the means of few answers may vary less than the items: it may exceed one)
    \* items that agree completely are perfectly reliable
    /\ (\A i \in 2..N : x[i] = x[1]) /\ Alpha(x, All(x)) # NaN => Near(Alpha(x, All(x)), FX, 20)
=============================================================================
