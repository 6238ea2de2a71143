---------------------------- MODULE Presentation ----------------------------
(* The same data can be presented in many ways: respondents and items in    *)
(* another order, every respondent several times, with respondents that     *)
(* answered nothing, in other answer codes, with the scale reversed.        *)
(* Present says what the table looks like after such steps; Act says what   *)
(* has to happen to what is estimated from it.                              *)
(*   table: one row per item, one answer per respondent, MISSING = no answer*)
(*   estimate: [disc, diff, extra (rows per item), ability (per respondent)]*)
EXTENDS Num

MISSING == -99999
ANY     == -2000000005           \* no prediction is made for this number

NItems(x) == Len(x)
NPersons(x) == Len(x[1])
Valid(x) == {v \in UNION {{x[i][p] : p \in 1..NPersons(x)} : i \in 1..NItems(x)} : v # MISSING}
Lo(S) == CHOOSE v \in S : \A w \in S : v <= w
Hi(S) == CHOOSE v \in S : \A w \in S : v >= w

\* Permutations by name, so that a history does not depend on the size of the table:
\* position k of the new order shows position Src(k) of the old one
Src(h, n, k) ==
    CASE h.how = "reverse" -> n + 1 - k
      [] h.how = "rotate"  -> ((k - 1 + h.k) % n) + 1
      [] h.how = "swap"    -> LET a == (h.k % n) + 1  b == (h.j % n) + 1
                              IN IF k = a THEN b ELSE IF k = b THEN a ELSE k
      [] h.how = "deal"    -> LET half == (n + 1) \div 2            \* riffle
                              IN IF k % 2 = 1 THEN (k + 1) \div 2 ELSE half + k \div 2
      [] h.how = "keep"    -> k
Reorder(s, h) == [k \in 1..Len(s) |-> s[Src(h, Len(s), k)]]
Cycle(s, k) == [m \in 1..(Len(s) * k) |-> s[((m - 1) % Len(s)) + 1]]
InsertMany(s, at, k, v) ==
    LET q == at % (Len(s) + 1)
    IN  [m \in 1..(Len(s) + k) |-> IF m <= q THEN s[m] ELSE IF m <= q + k THEN v ELSE s[m - k]]
\* numbers first in reversed order and with the other sign, blanks stay behind
Mirror(row) ==
    LET n == CountIf(row, LAMBDA v : v # NaN)
    IN  [k \in 1..Len(row) |-> IF k <= n /\ \A q \in 1..n : row[q] # NaN THEN -row[n + 1 - k] ELSE row[k]]

\* new code of an answer: increasing in the old one; gaps[r] between the codes of ranks r and r+1
Recode(S, h, v) ==
    IF v = MISSING THEN v
    ELSE LET r == Cardinality({w \in S : w < v})
         IN  h.low + FoldLeft(LAMBDA a, q : a + h.gaps[((q - 1) % Len(h.gaps)) + 1], 0, [q \in 1..r |-> q])

Present(x, h) ==
    CASE h.a = "persons" -> [i \in 1..Len(x) |-> Reorder(x[i], h)]
      [] h.a = "items"   -> Reorder(x, h)
      [] h.a = "copies"  -> [i \in 1..Len(x) |-> Cycle(x[i], h.k)]
      [] h.a = "blanks"  -> [i \in 1..Len(x) |-> InsertMany(x[i], h.at, h.k, MISSING)]
      [] h.a = "recode"  -> LET S == TLCEval(Valid(x))  f == TLCEval([v \in S \cup {MISSING} |-> Recode(S, h, v)])
                            IN  [i \in 1..Len(x) |-> [p \in 1..Len(x[i]) |-> f[x[i][p]]]]
      [] h.a = "mirror"  -> LET S == TLCEval(Valid(x))  t == Lo(S) + Hi(S)
                            IN  [i \in 1..Len(x) |-> [p \in 1..Len(x[i]) |-> IF x[i][p] = MISSING THEN MISSING ELSE t - x[i][p]]]

\* abilities may not be reported at all; an ability is one number or one per factor
NegAbility(v) == [k \in 1..Len(v) |-> IF v[k] = ANY THEN ANY ELSE -v[k]]
Act(est, h) ==
    CASE h.a = "persons" -> [est EXCEPT !.ability = IF @ = <<>> THEN @ ELSE Reorder(@, h)]
      [] h.a = "items"   -> [est EXCEPT !.disc = Reorder(@, h), !.diff = Reorder(@, h), !.extra = Reorder(@, h)]
      [] h.a = "copies"  -> [est EXCEPT !.ability = IF @ = <<>> THEN @ ELSE Cycle(@, h.k)]
      [] h.a = "blanks"  -> [est EXCEPT !.ability = IF @ = <<>> THEN @ ELSE InsertMany(@, h.at, h.k, [m \in 1..Len(@[1]) |-> ANY])]
      [] h.a = "recode"  -> est
      [] h.a = "mirror"  -> [est EXCEPT !.diff = [i \in 1..Len(@) |-> Mirror(@[i])],
                                        !.ability = [p \in 1..Len(@) |-> NegAbility(@[p])]]

PresentAll(x, hs) == FoldLeft(LAMBDA t, h : TLCEval(Present(t, h)), x, hs)
ActAll(e, hs) == FoldLeft(LAMBDA t, h : TLCEval(Act(t, h)), e, hs)
=============================================================================
