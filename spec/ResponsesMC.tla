---------------------------- MODULE ResponsesMC ----------------------------
(* All sequences of preparation steps on small tables.                      *)
EXTENDS Responses

CONSTANTS Items, Persons, Codes, Junk, MaxVal, TagSets

VARIABLES table, orig, gone, flips
vars == <<table, orig, gone, flips>>

Cells == (1..Items) \X (1..Persons)
Init ==
    /\ orig \in [1..Items -> [1..Persons -> Codes \cup {Junk, MISS}]]
    /\ table = orig
    /\ gone = {x \in Cells : orig[x[1]][x[2]] = MISS}
    /\ flips = [r \in 1..Items |-> FALSE]

DoTag(V) ==
    /\ table' = Tag(table, V)
    /\ gone' = gone \cup {x \in Cells : table[x[1]][x[2]] \notin V}
    /\ UNCHANGED <<orig, flips>>
DoReverse(rev) ==
    /\ table' = ReverseScore(table, rev, MaxVal)
    /\ flips' = [r \in 1..Items |-> flips[r] # rev[r]]
    /\ UNCHANGED <<orig, gone>>
Next == (\E V \in TagSets : DoTag(V)) \/ (\E rev \in [1..Items -> BOOLEAN] : DoReverse(rev))
Spec == Init /\ [][Next]_vars

\* a cell that was missing once stays missing; every other cell holds its answer, reversed or not
MissingIsForever == \A x \in gone : table[x[1]][x[2]] = MISS
AnswersKept ==
    \A x \in Cells \ gone :
        table[x[1]][x[2]] = IF flips[x[1]] THEN MaxVal + 1 - orig[x[1]][x[2]] ELSE orig[x[1]][x[2]]
ReverseIsAnInvolution ==
    \A rev \in [1..Items -> BOOLEAN] : ReverseScore(ReverseScore(table, rev, MaxVal), rev, MaxVal) = table
TagIsIdempotent == \A V \in TagSets : Tag(Tag(table, V), V) = Tag(table, V)

(* Recoding *)
Known == AllAnswers(table) # {}
RecodeIsMonotone ==
    Known => LET out == Recode(table, FALSE) IN
        \A r \in 1..Items : \A c, d \in 1..Persons :
            table[r][c] # MISS /\ table[r][d] # MISS =>
                (table[r][c] < table[r][d] <=> out[r][c] < out[r][d])
RecodeFillsBlocks ==
    Known => LET out == Recode(table, FALSE) IN
        \A r \in 1..Items : \A c \in 1..Persons :
            /\ (out[r][c] = MISS) = (table[r][c] = MISS)
            /\ out[r][c] # MISS => out[r][c] \in Offset(table, r)..(Offset(table, r) + Categories(table[r]) - 1)
RecodeIgnoresCodes ==      \* only the order of the codes matters
    Known => LET wide == MapCells(table, LAMBDA r, c, v : IF v = MISS THEN MISS ELSE 7 * v - 20)
             IN  Recode(wide, FALSE) = Recode(table, FALSE) /\ Kept(wide, TRUE) = Kept(table, TRUE)
TrimMirrors ==             \* reversing the whole scale trims the same respondents
    Known => LET mirrored == MapCells(table, LAMBDA r, c, v : IF v = MISS THEN MISS ELSE -v)
             IN  Kept(mirrored, TRUE) = Kept(table, TRUE)
BlanksAreTrimmed ==
    Known => \A k \in Ran(Kept(table, TRUE)) : Answers(Column(table, k)) # {}
=============================================================================
