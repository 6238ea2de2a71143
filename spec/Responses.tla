----------------------------- MODULE Responses -----------------------------
(* Tables of answers and what preparing them means.  A table is a sequence  *)
(* of items (rows), an item the sequence of the respondents' answers; MISS  *)
(* stands for a missing answer.                                             *)
EXTENDS Num

MISS == -99999

Rows(t) == 1..Len(t)
Cols(t) == IF Len(t) = 0 THEN {} ELSE 1..Len(t[1])
MapCells(t, F(_, _, _)) == [r \in Rows(t) |-> [c \in 1..Len(t[r]) |-> F(r, c, t[r][c])]]
Shape(t) == <<Len(t), IF Len(t) = 0 THEN 0 ELSE Len(t[1])>>
IsTable(t) == \A r \in Rows(t) : Len(t[r]) = Len(t[1])
SameShape(t, u) == IsTable(t) /\ IsTable(u) /\ Shape(t) = Shape(u)

Ran(s) == {s[k] : k \in 1..Len(s)}
Answers(row) == Ran(row) \ {MISS}
AllAnswers(t) == UNION {Answers(t[r]) : r \in Rows(t)}
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Column(t, c) == [r \in Rows(t) |-> t[r][c]]
Columns(t, keep) == [r \in Rows(t) |-> [k \in 1..Len(keep) |-> t[r][keep[k]]]]
\* positions satisfying T, ascending
Positions(n, T(_)) == SelectSeq([k \in 1..n |-> k], T)

-----------------------------------------------------------------------------
(* Preparation steps *)
Tag(t, V) == MapCells(t, LAMBDA r, c, v : IF v \in V THEN v ELSE MISS)
ReverseScore(t, rev, mx) == MapCells(t, LAMBDA r, c, v : IF v = MISS THEN MISS ELSE IF rev[r] THEN mx + 1 - v ELSE v)

(* Ordinal recoding *)
Categories(row) == MaxOf(2, Cardinality(Answers(row)))
CategoryCounts(t) == [r \in Rows(t) |-> Categories(t[r])]
Offset(t, r) == SumSeq([k \in 1..(r - 1) |-> Categories(t[k])])
RankIn(S, v) == Cardinality({w \in S : w < v})
CodeIn(S, lowest, v) == IF Cardinality(S) = 1 THEN (IF v = lowest THEN 0 ELSE 1) ELSE RankIn(S, v)
\* respondents that remain when the ends are trimmed
Extreme(t, c) ==
    LET a == Answers(Column(t, c)) all == AllAnswers(t)
    IN  a = {} \/ a = {MinSet(all)} \/ a = {MaxSet(all)}
Kept(t, trim) == Positions(Shape(t)[2], LAMBDA c : ~(trim /\ Extreme(t, c)))
RecodeRaw(t, lowest) ==
    [r \in Rows(t) |->
        LET S == TLCEval(Answers(t[r])) o == TLCEval(Offset(t, r))
        IN  [c \in 1..Len(t[r]) |-> IF t[r][c] = MISS THEN MISS ELSE o + CodeIn(S, lowest, t[r][c])]]
Recode(t, trim) == RecodeRaw(TLCEval(Columns(t, Kept(t, trim))), MinSet(AllAnswers(t)))

(* Dichotomous views *)
CountOf(row, v) == CountIf(row, LAMBDA x : x = v)
KernelSign(v) == IF v = 1 THEN -1 ELSE IF v = 0 THEN 1 ELSE 0
Varies(col) == Cardinality(Answers(col)) > 1
=============================================================================
