--------------------------- MODULE AssociationTrace ---------------------------
EXTENDS Association, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
TT == INSTANCE Tracing
TraceSpec == TT!TraceSpec
Unless(P, c) == TT!Unless(P, c)

Square(m, n) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
Matrix(e, m) ==
    IF ~Square(m, e.items) THEN {"OneEntryPerPair"}
    ELSE Unless(\A i, j \in 1..e.items : m[i][j] = m[j][i], "SymmetricMatrix")
         \cup Unless(\A i \in 1..e.items : m[i][i] = FX, "OnesOnTheDiagonal")
         \cup Unless(\A k \in 1..Len(e.pairs) : Near(m[e.pairs[k][1]][e.pairs[k][2]], e.pairs[k][3], 8), "EachPairInItsPlace")
MatrixClauses(e) ==
    Matrix(e, e.serial)
    \cup UNION {Matrix(e, e.parallel[k].m) : k \in 1..Len(e.parallel)}
    \cup Unless(\A k \in 1..Len(e.parallel) : e.parallel[k].m = e.serial, "SameOnAnyNumberOfProcesses")
    \cup Unless(\A k \in 1..Len(e.parallel) : e.parallel[k].left = 0, "NothingLeft")
    \cup Unless(e.untouched, "DataUntouched")
\* what fails serially fails in parallel, and leaves nothing either
FailClauses(e) == Unless(e.serial /\ \A k \in 1..Len(e.parallel) : e.parallel[k].failed, "SameOnAnyNumberOfProcesses")
                  \cup Unless(\A k \in 1..Len(e.parallel) : e.parallel[k].left = 0, "NothingLeft")
PolychoricScoreAt(e, d) == PolychoricScore(e.n, e.t1, e.t2, e.rho + d)
ScoreClauses(e) ==
    IF ~(Cuts([i \in 1..Len(e.n) |-> RowSum(e.n, i)], e.t1) /\ Cuts([j \in 1..Len(e.n[1]) |-> ColSum(e.n, j)], e.t2)) THEN {"OutsideTheSpecification"}
    ELSE Unless(IsNum(e.rho) /\ Abs(e.rho) <= 65472 /\ PolychoricScoreAt(e, -e.d)[1] > 0 /\ PolychoricScoreAt(e, e.d)[1] < 0, "LikelihoodEquation")
SerialScoreClauses(e) ==
    IF ~(Standard(e.z) /\ Cuts(e.counts, e.t) /\ \A c \in 1..Len(e.counts) : CountIf(e.y, LAMBDA v : v = c) = e.counts[c]) THEN {"OutsideTheSpecification"}
    ELSE Unless(IsNum(e.rho) /\ PolyserialScore(e.z, e.y, e.t, e.rho - e.d)[1] > 0 /\ PolyserialScore(e.z, e.y, e.t, e.rho + e.d)[1] < 0, "LikelihoodEquation")

\* the search covers -0.999 .. 0.999
Limit == 65470
\* beyond, a nearly empty corner leaves the likelihood flat
Strong == 62000
EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "table" -> Unless(e.t = Tabulate(e.v1, e.v2, e.start, e.stop), "CountsOfEveryPair")
           [] e.op = "clean" -> Unless(e.c = Clean(e.t) /\ e.untouched, "EmptyLinesRemoved")
           [] e.op = "matrix" -> MatrixClauses(e)
           [] e.op = "fail" -> FailClauses(e)
           [] e.op = "even" -> Unless(Near(e.rho, MaxOf(-Limit, MinOf(Limit, EvenRho(e.agree, e.half))), e.tol), "ClosedForm")
           [] e.op = "score" -> ScoreClauses(e)
           [] e.op = "serialscore" -> SerialScoreClauses(e)
           [] e.op = "same" -> Unless(\A k \in 1..Len(e.rhos) : Near(e.rhos[k], e.rho, e.tol), e.name)
           [] e.op = "opposite" -> Unless(\A k \in 1..Len(e.rhos) : Near(e.rhos[k], -e.rho, e.tol), "ReversalTurnsTheSign")
           [] e.op = "reorder" -> Unless(\A i, j \in 1..Len(e.perm) : Near(e.m2[i][j], e.m[e.perm[i]][e.perm[j]], IF i = j THEN 0 ELSE IF Abs(e.m[e.perm[i]][e.perm[j]]) > Strong THEN 1000 ELSE e.tol), "FollowsTheItems")
=============================================================================
