--------------------------- MODULE ResponsesTrace ---------------------------
(* Recorded calls of the data preparation functions against Responses.      *)
EXTENDS Responses, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

(* tagging and reversing, in any order *)
Step(t, s) == IF s.a = "tag" THEN Tag(t, Ran(s.v)) ELSE ReverseScore(t, s.mask, s.mx)
RECURSIVE Walk(_, _, _)
Walk(t, steps, k) ==
    IF k > Len(steps) THEN {}
    ELSE LET u == TLCEval(Step(t, steps[k]))
             s == steps[k]
         IN  Unless(SameShape(s.out, u), "ShapeKept")
             \cup (IF ~SameShape(s.out, u) THEN {}
                   ELSE Unless(\A r \in Rows(u) : \A c \in Cols(u) : u[r][c] = MISS => s.out[r][c] = MISS, "MissingStaysMissing")
                   \cup Unless(\A r \in Rows(u) : \A c \in Cols(u) : u[r][c] # MISS => s.out[r][c] = u[r][c],
                               IF s.a = "tag" THEN "ValidAnswersKept" ELSE "ReversedExactly")
                   \cup Walk(u, steps, k + 1))
ChainClauses(e) ==
    Walk(e.x, e.steps, 1)
    \cup Unless(e.unchanged, "CallersTableUntouched")
    \cup Unless(~e.alias, "ResultIsACopy")

(* ordinal recoding *)
RecodeClauses(e) ==
    LET t == e.x
        keep == TLCEval(Kept(t, e.trim))
        small == TLCEval(Columns(t, keep))
        want == TLCEval(RecodeRaw(small, MinSet(AllAnswers(t))))
        okshape == IsTable(e.out) /\ Len(e.out) = Len(t) /\ (\A r \in Rows(e.out) : Len(e.out[r]) = Len(keep))
    IN  Unless(e.unchanged, "CallersTableUntouched")
        \cup Unless(~e.alias, "ResultIsACopy")
        \cup Unless(okshape, "ExactlyTheExtremeRespondentsDropped")
        \cup Unless(e.counts = CategoryCounts(small), "CategoryCounts")
        \cup (IF ~okshape THEN {}
              ELSE Unless(\A r \in Rows(t) : \A c \in 1..Len(keep) : (want[r][c] = MISS) => e.out[r][c] = MISS, "MissingStaysMissing")
              \cup Unless(\A r \in Rows(t) : \A c \in 1..Len(keep) : (want[r][c] # MISS) => e.out[r][c] = want[r][c], "RankWithinOwnBlock")
              \cup Unless(Len(e.mask) = Len(t) /\ \A r \in Rows(t) : e.mask[r] = [c \in 1..Len(keep) |-> small[r][c] # MISS], "MaskMarksAnswered"))

(* counts, signs, trimming, start values *)
CountClauses(e) ==
    Unless(e.nfalse = [r \in Rows(e.x) |-> CountOf(e.x[r], 0)], "FalseCounts")
    \cup Unless(e.ntrue = [r \in Rows(e.x) |-> CountOf(e.x[r], 1)], "TrueCounts")
    \cup Unless(e.sign = MapCells(e.x, LAMBDA r, c, v : KernelSign(v)), "KernelSigns")
    \cup Unless(e.unchanged, "CallersTableUntouched")
\* a large table, told by its distinct columns and how often each occurs
BulkClauses(e) ==
    LET times(r, v) == SumSeq([k \in 1..Len(e.n) |-> IF e.x[r][k] = v THEN e.n[k] ELSE 0]) IN
    Unless(\A r \in Rows(e.x) : e.nfalse[r] = times(r, 0), "FalseCounts")
    \cup Unless(\A r \in Rows(e.x) : e.ntrue[r] = times(r, 1), "TrueCounts")
    \cup Unless(e.sign = MapCells(e.x, LAMBDA r, c, v : KernelSign(v)), "KernelSigns")
    \cup Unless(e.unchanged, "CallersTableUntouched")
TrimClauses(e) ==
    LET keep == Positions(Len(e.counts), LAMBDA c : Varies(Column(e.x, c)))
    IN  Unless(Len(e.out) = Len(e.x) /\ e.out = Columns(e.x, keep), "ExactlyConstantPatternsDropped")
        \cup Unless(e.outcounts = [k \in 1..Len(keep) |-> e.counts[keep[k]]], "CountsStayWithTheirPattern")
        \cup Unless(e.unchanged, "CallersTableUntouched")
\* log2(no/yes) is an integer and sqrt(1 + a^2/3) = s: the start value times a is s * log(no/yes)
ApproxClauses(e) ==
    Unless(Len(e.out) = Len(e.x) /\ \A r \in Rows(e.x) :
        LET no == CountOf(e.x[r], 0) yes == CountOf(e.x[r], 1)
            k == IF no >= yes THEN BitLen(no \div yes) - 1 ELSE -(BitLen(yes \div no) - 1)
        IN  Near(e.out[r], FxOf(e.s * k), 8), "AnalyticStartValue")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "chain" -> ChainClauses(e)
           [] e.op = "recode" -> RecodeClauses(e)
           [] e.op = "count" -> CountClauses(e)
           [] e.op = "bulk" -> BulkClauses(e)
           [] e.op = "trim" -> TrimClauses(e)
           [] e.op = "approx" -> ApproxClauses(e)
=============================================================================
