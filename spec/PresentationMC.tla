--------------------------- MODULE PresentationMC ---------------------------
(* Exhaustive check of Present and Act on small tables, and generation of   *)
(* histories of presentation steps.  The estimator used here is any         *)
(* function of what the data say: for every item the balance of answers     *)
(* below and above each of its category boundaries, for every respondent    *)
(* the balance of categories below and above the answer.                    *)
EXTENDS Presentation, Json, IOUtils
CONSTANTS Items, Persons, Codes, Length, Kinds, Emit

Person == [a : {"persons"}, how : {"reverse", "deal"}, k : {0}, j : {0}]
          \cup [a : {"persons"}, how : {"rotate"}, k : IF Emit THEN {1, 7, 31} ELSE {1}, j : {0}]
          \cup [a : {"persons"}, how : {"swap"}, k : IF Emit THEN {0, 3, 50} ELSE {0}, j : IF Emit THEN {1, 12, 99} ELSE {1}]
Swaps == {s \in [a : {"items"}, how : {"swap"}, k : 0..(Items - 1), j : 0..(Items - 1)] : s.k < s.j}
Item == [a : {"items"}, how : {"reverse", "deal"}, k : {0}, j : {0}]
        \cup [a : {"items"}, how : {"rotate"}, k : 1..(Items - 1), j : {0}]
        \cup Swaps
Copies == [a : {"copies"}, k : {2, 3}]
Blanks == [a : {"blanks"}, at : IF Emit THEN {0, 1, 17, 1000} ELSE {0, 1}, k : IF Emit THEN {1, 2, 40} ELSE {1}]
Codings == [a : {"recode"}, low : IF Emit THEN {-50, -3, 0, 1, 2, 100} ELSE {-3, 1},
            gaps : IF Emit THEN {<<1>>, <<2>>, <<1, 3>>, <<10, 1, 2>>, <<40>>} ELSE {<<1>>, <<2, 1>>}]
Steps == (IF "persons" \in Kinds THEN Person ELSE {}) \cup (IF "items" \in Kinds THEN Item ELSE {})
         \cup (IF "swaps" \in Kinds THEN Swaps ELSE {})
         \cup (IF "copies" \in Kinds THEN Copies ELSE {}) \cup (IF "blanks" \in Kinds THEN Blanks ELSE {})
         \cup (IF "recode" \in Kinds THEN Codings ELSE {})
         \cup (IF "mirror" \in Kinds THEN {[a |-> "mirror"]} ELSE {})

-----------------------------------------------------------------------------
Ranks(x, i) == {v \in {x[i][p] : p \in 1..NPersons(x)} : v # MISSING}
Width(x) == Cardinality(Valid(x))
RankOf(S, v) == Cardinality({w \in S : w < v})
Balance(row, S, c) ==        \* c: how many categories lie below the boundary
    LET below == CountIf(row, LAMBDA v : v # MISSING /\ RankOf(S, v) < c)
        above == CountIf(row, LAMBDA v : v # MISSING /\ RankOf(S, v) >= c)
    IN  (60 * (below - above)) \div (below + above)
Estimate(x) ==
    [disc |-> [i \in 1..Len(x) |-> <<Cardinality(Ranks(x, i))>>],
     diff |-> [i \in 1..Len(x) |-> LET S == Ranks(x, i)
                  IN [c \in 1..MaxOf(1, Width(x) - 1) |-> IF c < Cardinality(S) THEN Balance(x[i], S, c) ELSE NaN]],
     extra |-> [i \in 1..Len(x) |-> <<>>],
     ability |-> [p \in 1..NPersons(x) |->
        <<FoldLeft(LAMBDA a, i : IF x[i][p] = MISSING THEN a
                                 ELSE a + 2 * RankOf(Ranks(x, i), x[i][p]) - (Cardinality(Ranks(x, i)) - 1),
                   0, [i \in 1..Len(x) |-> i])>>]]
AgreeNum(a, b) == a = b \/ a = ANY
AgreeSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AgreeNum(a[i], b[i])
AgreeMat(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AgreeSeq(a[i], b[i])
Agree(p, e) == AgreeMat(p.disc, e.disc) /\ AgreeMat(p.diff, e.diff) /\ AgreeMat(p.extra, e.extra) /\ AgreeMat(p.ability, e.ability)

VARIABLES x0, x, pred, hist
vars == <<x0, x, pred, hist>>
Tables == IF Emit THEN {[i \in 1..Items |-> <<0>>]} ELSE
          {t \in [1..Items -> [1..Persons -> Codes \cup {MISSING}]] : Valid(t) # {}}
Init == x0 \in Tables /\ x = x0 /\ pred = (IF Emit THEN <<>> ELSE Estimate(x0)) /\ hist = <<>>
Apply(h) == hist' = Append(hist, h) /\ UNCHANGED x0
            /\ IF Emit THEN UNCHANGED <<x, pred>>
               ELSE x' = Present(x, h) /\ pred' = Act(pred, h) /\ NPersons(x') <= 6
Done == /\ Len(hist) = Length /\ Emit
        /\ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ hist' = <<>> /\ UNCHANGED <<x0, x, pred>>
Next == (Len(hist) < Length /\ \E h \in Steps : Apply(h)) \/ Done
Spec == Init /\ [][Next]_vars

\* what is predicted from the original presentation is what is estimated from the present one
Equivariant == Emit \/ Agree(pred, Estimate(x))
\* presenting step by step or all at once is the same
Composes == Emit \/ (x = PresentAll(x0, hist) /\ pred = ActAll(Estimate(x0), hist))
\* mirroring twice is no step at all
MirrorTwice == Emit \/ (LET m == [a |-> "mirror"] IN Act(Act(pred, m), m) = pred /\ Present(Present(x, m), m) = x)
View == IF Emit THEN <<hist>> ELSE <<x0, x, pred, hist>>
=============================================================================
