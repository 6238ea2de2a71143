---------------------------- MODULE FactorsTrace ----------------------------
EXTENDS Factors, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
TT == INSTANCE Tracing
TraceSpec == TT!TraceSpec
Unless(P, c) == TT!Unless(P, c)

PcaClauses(e) ==
    LET n == Len(e.R)  k == e.k IN
    IF ~(Shaped(e.L, n, k) /\ Len(e.lam) = k /\ NumSeq(e.lam) /\ Len(e.U) = n) THEN {"OneColumnPerComponent"}
    ELSE Unless(\A f \in 1..k : EigenColumn(e.R, e.L, e.lam, f, e.tol), "EigenvectorsScaled")
         \cup Unless(Perpendicular(e.L, e.tol), "PerpendicularComponents")
         \cup Unless(Falling(e.lam, 1), "LargestFirst")
         \cup Unless(\A i \in 1..n : e.U[i] = 0, "NothingUnique")
         \* all of them reproduce the matrix; the first k are those of all
         \cup Unless(Shaped(e.full.L, n, n) /\ Reproduces(e.R, e.full.L, e.U, e.tol) /\ Near(SumSeq(e.full.lam), Trace(e.R), e.tol)
                     /\ Falling(e.full.lam, 1) /\ NearSeq(e.lam, SubSeq(e.full.lam, 1, k), 2), "AllComponentsReproduce")
         \cup Unless(e.untouched, "MatrixUntouched")
ExtractClauses(e) ==
    LET n == Len(e.R)  k == e.k IN
    IF ~(Shaped(e.L, n, k) /\ Len(e.lam) = k /\ NumSeq(e.lam) /\ Len(e.U) = n /\ NumSeq(e.U)) THEN {"OneColumnPerFactor"}
    ELSE Unless(NearSeq(e.U, e.psi, e.tol), "UniqueVariances")
         \cup Unless(Reproduces(e.R, e.L, e.psi, e.tol), "LoadingsReproduce")
         \cup Unless(\A f \in 1..k : LET c == TLCEval(Column(e.L, f)) IN Near(SDot(c, c), e.lam[f], 12), "EigenvaluesAreColumnSums")
         \cup Unless(e.method = "ml" \/ Falling(e.lam, 2), "LargestFirst")
         \cup Unless(e.method = "ml" \/ Perpendicular(e.L, 40), "PerpendicularFactors")
         \cup Unless(e.untouched, "ArgumentsUntouched")
ProcrustesClauses(e) ==
    LET n == Len(e.Q) IN
    IF ~(Shaped(e.Q, e.k, e.k)) THEN {"SquareRotation"}
    ELSE LET M == TLCEval(Times(Transposed(e.C), e.T))         \* C'T
             S == TLCEval(Times(Transposed(e.Q), M))
         IN  Unless(Orthogonal(e.Q, 16), "OrthogonalRotation")
             \cup Unless(~e.exact \/ LET X == Times(e.C, e.Q) IN NearMat(X, e.T, 40), "MapsOntoTheTarget")
             \* nothing maps better: Q'C'T is symmetric, and no other orthogonal matrix has a larger trace
             \cup Unless(SymmetricMat(S, 300) /\ \A w \in 1..Len(e.others) : Orthogonal(e.others[w], 16) /\ Trace(Times(Transposed(e.others[w]), M)) <= Trace(S) + 300, "NearestRotation")
SparseClauses(e) ==
    LET k == Len(e.L[1])  n == Len(e.L) IN
    IF ~(Shaped(e.rot, n, k) /\ Shaped(e.bases, k, k)) THEN {"ShapeOfTheLoadings"}
    ELSE Unless(NearMat(Times(e.rot, e.bases), e.L, 30), "GivesTheLoadingsBack")
         \cup Unless(\A f \in 1..k : Near(Length2(e.bases[f]), FX, 12), "UnitBases")
         \cup Unless(~e.orthogonal \/ Orthogonal(e.bases, 200), "OrthogonalOnRequest")
         \cup Unless(e.again, "SameSeedSameRotation")
         \* simple structure is found again
         \cup Unless(~e.simple \/ Entropy(e.rot) <= e.slack, "FindsSimpleStructure")
         \cup Unless(e.untouched, "LoadingsUntouched")
SphereClauses(e) ==
    Unless(Len(e.v) = Len(e.t) + 1 /\ NearSeq(e.v, Sphere(e.t), 30) /\ Near(Length2(e.v), FX, 30), "UnitVectorOfTheAngles")
AnglesClauses(e) ==
    Unless(Len(e.t) = Len(e.v) - 1 /\ NumSeq(e.t) /\ SameDirection(e.v, Sphere(e.t), 200) /\ SameDirection(e.v, e.back, 60), "AnglesGiveTheDirectionBack")
    \cup Unless(\A k \in 1..Len(e.t) : e.t[k] >= 0 /\ e.t[k] <= (IF k = Len(e.t) THEN 2 * PiFx ELSE PiFx) + 2, "AnglesInRange")
EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "pca" -> PcaClauses(e)
           [] e.op = "extract" -> ExtractClauses(e)
           [] e.op = "procrustes" -> ProcrustesClauses(e)
           [] e.op = "sparse" -> SparseClauses(e)
           [] e.op = "sphere" -> SphereClauses(e)
           [] e.op = "angles" -> AnglesClauses(e)
           [] e.op = "entropy" -> Unless(Near(e.h, Entropy(IF e.axis = 0 THEN Transposed(e.m) ELSE e.m), e.tol), "EntropyOfTheRows")
=============================================================================
