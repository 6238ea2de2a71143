------------------------------- MODULE JointMC -------------------------------
(* The alternation itself, on all small tables: a round finds the abilities *)
(* under the items' parameters, standardises them and finds the items'      *)
(* parameters given them, until no difficulty moves any more.               *)
EXTENDS Joint
CONSTANTS NItems, Counts, Disc, Rounds
Pats == SetToSeq({p \in [1..NItems -> {0, 1}] : \E i, j \in 1..NItems : p[i] # p[j]})
VARIABLES n, b, old, th, round
vars == <<n, b, old, th, round>>
Item(x) == [a |-> Disc, b |-> <<x>>, kind |-> "graded"]
Of(beta) == [i \in 1..NItems |-> Item(beta[i])]
Zero == [i \in 1..NItems |-> 0]
Endorsed(c, i) == FoldLeft(LAMBDA acc, k : acc + c[k] * Pats[k][i], 0, [k \in 1..Len(Pats) |-> k])
\* up to the order of the items
Init ==
        /\ n \in {c \in [1..Len(Pats) -> Counts] : \A i \in 2..NItems : Endorsed(c, i - 1) <= Endorsed(c, i)}
        /\ b = Zero /\ old = [i \in 1..NItems |-> MaxFx] /\ th = [k \in 1..Len(Pats) |-> 0] /\ round = 0
Moved == \E i \in 1..NItems : Abs(b[i] - old[i]) > 66
Step == /\ round < Rounds /\ Moved
        /\ LET raw == TLCEval([k \in 1..Len(Pats) |-> Bisect(LAMBDA t : PersonEquation(Of(b), Pats[k], t), -393216, 393216, 16)])
               t2 == TLCEval(Standardised(raw, [k \in 1..Len(Pats) |-> 1]))
           IN  /\ th' = t2
               /\ b' = [i \in 1..NItems |-> Bisect(LAMBDA x : ItemEquation(LAMBDA k, t : ByThreshold(Item(x), k, t, 1), Pats, n, t2, i), -393216, 393216, 16)]
        /\ old' = b /\ round' = round + 1 /\ UNCHANGED n
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Centred == round > 0 => Near(FoldLeft(LAMBDA acc, x : acc + x, 0, th), 0, 60)
\* once nothing moves, items and abilities satisfy each other's equations
FixedPoint == (round > 0 /\ ~Moved) =>
    LET raw == TLCEval([k \in 1..Len(Pats) |-> Bisect(LAMBDA t : PersonEquation(Of(b), Pats[k], t), -393216, 393216, 16)])
        t2 == TLCEval(Standardised(raw, [k \in 1..Len(Pats) |-> 1]))
    IN  \A i \in 1..NItems : AtMax(LAMBDA x : ItemEquation(LAMBDA k, t : ByThreshold(Item(x), k, t, 1), Pats, n, t2, i), b[i], 200, -393216, 393216)
Converges == <>~Moved
=============================================================================
