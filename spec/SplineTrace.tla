----------------------------- MODULE SplineTrace -----------------------------
(* Spline densities as evaluated, estimated and resampled by the code.      *)
EXTENDS Spline, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

\* e.at: [x |-> location, y |-> value, b |-> row of the filter matrix (knots only)]
Evaluates(e) ==
    Unless(\A k \in 1..Len(e.at) : Near(e.at[k].y, Value(e.n, e.stop, e.c, e.at[k].x), e.tol), "CombinationOfSplines")
    \cup Unless(\A k \in 1..Len(e.at) : Len(e.at[k].b) = e.n /\ \A j \in 1..e.n : Near(e.at[k].b[j], Basis(e.n, e.stop, j, e.at[k].x), e.tol), "FilterMatrix")
    \cup Unless(\A k \in 1..Len(e.fine) : Near(e.fine[k].y, Value(e.n, e.stop, e.c, e.fine[k].x), e.tol), "FineGridAgrees")
    \cup Unless(e.refused, "WrongSizeRefused")

Shares(L, w) == [p \in 1..Len(L) |-> TLCEval(FoldLeft(LAMBDA acc, q : FAdd(acc, FMul(L[p][q], w[q])), FZero, [q \in 1..Len(w) |-> q]))]
\* weights of the nodes under spline c: density times quadrature weight
Weights(e, c) == [q \in 1..Len(e.th) |-> FMul(e.qw[q], FFx(Value(e.n, e.stop, c, e.th[q])))]
\* the log-likelihood is concave: c is best unless moving towards another admissible spline gains
\* (relative gains of the respondents, each counted up to 40)
Gain(ret, other) == SumSeq([p \in 1..Len(ret) |-> MinOf(ToFx(FDiv(other[p], ret[p])), 40 * FX) - FX]) \div Len(ret)
Estimates(e) ==
    LET w == TLCEval(Weights(e, e.c))
        ret == TLCEval(Shares(e.L, e.w))
    IN  Unless(Admissible(e.n, e.stop, e.c), "Standardised")
        \cup Unless(Len(e.w) = Len(w) /\ \A q \in 1..Len(w) : Near(ToFx(e.w[q]), ToFx(w[q]), e.tol), "WeightsOfTheSpline")
        \cup Unless(\A k \in 1..Len(e.rivals) : ~Admissible(e.n, e.stop, e.rivals[k]) \/ Gain(ret, TLCEval(Shares(e.L, Weights(e, e.rivals[k])))) <= e.gain, "FitsAtLeastAsWell")
Unchanged(e) == Unless(Len(e.w) = Len(e.given) /\ \A q \in 1..Len(e.w) : Near(ToFx(e.w[q]), ToFx(e.given[q]), 1), "CallersDensity")
\* resampling: closest admissible spline at the new knots (a convex problem again)
Resamples(e) ==
    LET v(c, x) == FxMul(Value(e.m, e.stop, c, x), Step(e.m, e.stop))
        old == [j \in 1..Len(e.pts) |-> FxMul(Value(e.n, e.stop, e.old, e.pts[j]), Step(e.m, e.stop))]
        now == [j \in 1..Len(e.pts) |-> v(e.c, e.pts[j])]
        Pull(r) == FoldLeft(LAMBDA acc, j : acc + FxMul(now[j] - old[j], v(r, e.pts[j]) - now[j]), 0, [j \in 1..Len(e.pts) |-> j])
    IN  Unless(Admissible(e.m, e.stop, e.c), "Standardised")
        \cup Unless(\A k \in 1..Len(e.rivals) : ~Admissible(e.m, e.stop, e.rivals[k]) \/ Pull(e.rivals[k]) >= -e.gain, "ClosestSpline")
        \cup Unless(e.refused, "SameSizeRefused") \cup Unless(e.kept, "OldSplineUnchanged")
\* information criteria (halved): k - LL and (k ln N)/2 - LL
Criteria(e) ==
    LET s == Shares(e.L, e.w)  ll == FoldLeft(LAMBDA acc, p : acc + FLn(s[p]), 0, [p \in 1..Len(s) |-> p])
    IN  Unless(Near(e.aic, e.k * FX - ll, e.tol) /\ Near(e.bic, (e.k * FLn(FInt(Len(s)))) \div 2 - ll, e.tol), "InformationCriteria")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "spline" -> Evaluates(e) [] e.op = "estimated" -> Estimates(e) [] e.op = "null" -> Unchanged(e)
           [] e.op = "resample" -> Resamples(e) [] e.op = "criteria" -> Criteria(e)
=============================================================================
