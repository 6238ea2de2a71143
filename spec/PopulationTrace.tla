--------------------------- MODULE PopulationTrace ---------------------------
(* Estimates from tables that are exact populations.                        *)
(*  e.n respondents per design; e.designs: which items are presented        *)
(*  e.pats: patterns of answers (0..), e.counts[d][k]: how often pattern k  *)
(*  occurs among the respondents of design d                                *)
EXTENDS Population, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

\* counts are the shares of n respondents, rounded
RoundedShare(c, n, s) == Near(IF n < 30000 THEN (c * FX) \div n ELSE ToFx(FDiv(FInt(c), FInt(n))), s, FX \div n + 10)
Populated(e) ==
    LET tab == TLCEval(Table(e.items, e.th))
    IN  \A d \in 1..Len(e.designs) : \A k \in 1..Len(e.pats[d]) :
            /\ \A i \in 1..Len(e.items) : (e.pats[d][k][i] = MISSING) = (e.designs[d][i] = 0)
            /\ RoundedShare(e.counts[d][k], e.n, ToFx(PatternShare(tab, e.th, e.w, e.pats[d][k])))

\* blanks behind the thresholds an item has
Recovered(est, items, t) ==
    /\ Len(est) = Len(items)
    /\ \A i \in 1..Len(items) : /\ Len(est[i]) >= Steps(items[i])
                                /\ \A k \in 1..Len(est[i]) : IF k <= Steps(items[i]) THEN Near(est[i][k], items[i].b[k], t) ELSE est[i][k] = NaN
Increasing(est, items) == \A i \in 1..Len(items) : \A k \in 1..(Steps(items[i]) - 1) : est[i][k] < est[i][k + 1]
MarginalClauses(e) ==
    Unless(Populated(e), "PopulationAsStated")
    \cup Unless(Len(e.disc) = Len(e.items) /\ \A i \in 1..Len(e.items) : Near(e.disc[i], e.items[i].a, e.atol), "DiscriminationRecovered")
    \cup Unless(Recovered(e.diff, e.items, e.btol), "DifficultyRecovered")
    \cup (IF e.items[1].kind = "graded" THEN Unless(Increasing(e.diff, e.items), "ThresholdsIncrease") ELSE {})

\* conditional: patterns of every score with exactly their conditional shares of the score's respondents
ConditionalClauses(e) ==
    LET ez == TLCEval(Easiness(e.items))
        n == Len(e.items)
        mean == FoldLeft(LAMBDA acc, i : acc + e.items[i].b[1], 0, [i \in 1..n |-> i]) \div n
    IN  Unless(\A k \in 1..Len(e.pats) : RoundedShare(e.counts[k], e.scores[Score(e.pats[k])], ToFx(ConditionalShare(ez, e.pats[k]))), "PopulationAsStated")
        \cup Unless(Len(e.diff) = n /\ \A i \in 1..n : Near(e.diff[i], e.items[i].b[1] - mean, e.btol), "DifficultyRecovered")
        \cup Unless(Len(e.diff) = n /\ Near(FoldLeft(LAMBDA acc, x : acc + x, 0, e.diff), 0, 40), "CentredAtZero")
        \cup Unless(\A i \in 1..Len(e.disc) : Near(e.disc[i], e.items[1].a, 1), "DiscriminationAsGiven")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "marginal" -> MarginalClauses(e)
           [] e.op = "conditional" -> ConditionalClauses(e)
=============================================================================
