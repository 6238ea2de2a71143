--------------------------- MODULE BootstrapTrace ---------------------------
(* Bootstrap runs against Pool.tla: which resamples were fitted, with what  *)
(* options, and how the fits were summarised.                               *)
EXTENDS Num, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

\* An event: e.data[r] = answers of respondent r (the first one is r itself); e.iters; e.given (solution given);
\* e.runs: runs with the same seed and number of processes; e.other: a run with another seed.
\* A run: fits (each: sample = sequence of columns, opts = values of the requested options, disc, diff (flat)),
\*        sol, se, bias, lo, hi: [disc |-> ..., diff |-> ...] flat; shapes
Persons(e) == Len(e.data)
\* fits of resamples: all but the one of the whole data, which is made when no solution is given
IsWhole(e, f) == f.sample = e.data
Resamples(e, r) == IF e.given THEN r.fits ELSE SelectSeq(r.fits, LAMBDA f : ~IsWhole(e, f))
Count(e, r) == Len(r.fits) = e.iters + IF e.given THEN 0 ELSE 1
SolvedOnce(e, r) == e.given \/ CountIf(r.fits, LAMBDA f : IsWhole(e, f)) = 1
FullSize(e, r) == \A k \in 1..Len(r.fits) : Len(r.fits[k].sample) = Persons(e)
WholeRespondents(e, r) ==
    \A k \in 1..Len(r.fits) : \A j \in 1..Len(r.fits[k].sample) :
        LET c == r.fits[k].sample[j] IN c[1] \in 1..Persons(e) /\ c = e.data[c[1]]
OptionsPassedOn(e, r) == \A k \in 1..Len(r.fits) : r.fits[k].opts = e.opts
Ids(f) == [j \in 1..Len(f.sample) |-> f.sample[j][1]]
\* with replacement, every respondent as likely as the others, no draw repeated
NoRepeats(e, fits) == Cardinality({Ids(fits[k]) : k \in 1..Len(fits)}) = Len(fits)
ISqrt(n) == CHOOSE x \in 0..(n + 1) : x * x <= n /\ (x + 1) * (x + 1) > n
Even(e, fits) ==
    \A p \in 1..Persons(e) :
        LET seen == FoldLeft(LAMBDA acc, f : acc + CountIf(Ids(f), LAMBDA x : x = p), 0, fits)
        IN  Abs(seen - Len(fits)) <= 6 * (ISqrt(Len(fits)) + 1)
\* different respondents per resample: about n (1 - 1/e), never all of them when n is large
Replaced(e, fits) ==
    LET n == Persons(e)
        d == FoldLeft(LAMBDA acc, f : acc + Cardinality({f.sample[j][1] : j \in 1..Len(f.sample)}), 0, fits)
        m == Len(fits)
    IN  n >= 10 /\ m >= 8 => 100 * d <= 80 * n * m /\ 100 * d >= 50 * n * m

\* Summaries of parameter j over the fits, NaN ignored
Column(fits, which, j) == SelectSeq([k \in 1..Len(fits) |-> IF which = "disc" THEN fits[k].disc[j] ELSE fits[k].diff[j]], LAMBDA x : x # NaN)
MeanOf(xs) == LET s == SumSeq(xs) IN (2 * s + Len(xs)) \div (2 * Len(xs))
Deviation(xs) ==
    LET m == MeanOf(xs)
    IN  ToFx(FSqrt(FDiv(FSum([k \in 1..Len(xs) |-> FMul(FFx(xs[k] - m), FFx(xs[k] - m))]), FInt(Len(xs) - 1))))
Percentile(xs, permille) ==
    LET s == SortSeq(xs, LAMBDA x, y : x < y)
        p == permille * (Len(xs) - 1)
        k == 1 + (p \div 1000)
    IN  IF k = Len(xs) THEN s[k] ELSE s[k] + FxMul(s[k + 1] - s[k], ((p % 1000) * 65536) \div 1000)
Tol(x) == 6 + (Abs(x) \div 8000)
Summary(e, r, which) ==
    LET fits == Resamples(e, r)
        sol == IF which = "disc" THEN r.sol.disc ELSE r.sol.diff
        se == IF which = "disc" THEN r.se.disc ELSE r.se.diff
        bias == IF which = "disc" THEN r.bias.disc ELSE r.bias.diff
        lo == IF which = "disc" THEN r.lo.disc ELSE r.lo.diff
        hi == IF which = "disc" THEN r.hi.disc ELSE r.hi.diff
        col == TLCEval([j \in 1..Len(sol) |-> Column(fits, which, j)])
    IN  /\ Len(se) = Len(sol) /\ Len(bias) = Len(sol) /\ Len(lo) = Len(sol) /\ Len(hi) = Len(sol)
        /\ \A j \in 1..Len(sol) :
            IF col[j] = <<>> THEN se[j] = NaN /\ bias[j] = NaN /\ lo[j] = NaN /\ hi[j] = NaN
            ELSE /\ IF Len(col[j]) = 1 THEN se[j] = NaN ELSE LET d == Deviation(col[j]) IN Near(se[j], d, Tol(d))
                 /\ IF sol[j] = NaN THEN bias[j] = NaN ELSE Near(bias[j], MeanOf(col[j]) - sol[j], 3)
                 /\ Near(lo[j], Percentile(col[j], 25), 4) /\ Near(hi[j], Percentile(col[j], 975), 4)
Shaped(e, r) == \A k \in 1..Len(r.shapes.diff) : r.shapes.diff[k] = e.shape.diff /\ r.shapes.disc[k] = e.shape.disc
\* the solution: as given, or the fit of the data as they are
Solution(e, r) ==
    IF e.given THEN r.same
    ELSE \A k \in 1..Len(r.fits) : IsWhole(e, r.fits[k]) => r.fits[k].disc = r.sol.disc /\ r.fits[k].diff = r.sol.diff
Draws(r) == {Ids(r.fits[k]) : k \in 1..Len(r.fits)}
\* results of one seed and number of processes: the same to the last bit
SameRun(r, s) == r.digest = s.digest /\ Draws(r) = Draws(s)

RunClauses(e, r) ==
    Unless(Count(e, r) /\ SolvedOnce(e, r), "ExactlyTheRequestedFits")
    \cup Unless(FullSize(e, r) /\ WholeRespondents(e, r), "WholeRespondents")
    \cup Unless(OptionsPassedOn(e, r), "CallersOptions")
    \cup Unless(Solution(e, r), "SolutionAsIs")
    \cup (IF ~(FullSize(e, r) /\ WholeRespondents(e, r)) THEN {}
          ELSE LET f == TLCEval(Resamples(e, r)) IN
               Unless(NoRepeats(e, f), "NoDrawTwice") \cup Unless(Even(e, f) /\ Replaced(e, f), "EveryRespondentAsLikely"))
    \cup (IF Shaped(e, r) THEN Unless(Summary(e, r, "disc") /\ Summary(e, r, "diff"), "SummaryOfTheFits") ELSE {"ShapeOfTheSolution"})
EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE RunClauses(e, e.runs[1])
         \cup Unless(\A k \in 2..Len(e.runs) : SameRun(e.runs[1], e.runs[k]), "Reproducible")
         \cup Unless(e.other = <<>> \/ Draws(e.other[1]) \cap Draws(e.runs[1]) \subseteq {[j \in 1..Persons(e) |-> j]}, "AnotherSeedAnotherDraw")
=============================================================================
