---------------------------- MODULE ScoringTrace ----------------------------
(* Recorded scores against the specification of scoring.                    *)
EXTENDS Scoring, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

\* expected a posteriori: e.score[k][f] of pattern k on factor f
Posterior(e) ==
    LET nodes == TLCEval(Product(e.th, e.factors))
        w == TLCEval(ProductWeights(e.w, e.factors))
        tab == TLCEval(TableAt(e.items, nodes))
    IN  Unless(Len(e.score) = Len(e.pats) /\ \A k \in 1..Len(e.pats) :
                 LET v == Weighted(tab, w, e.pats[k]) IN \A f \in 1..e.factors : Near(e.score[k][f], Mean(v, nodes, f), e.tol), "PosteriorMean")

\* maximum likelihood or a posteriori; e.sentinel: the magnitude reported where nothing can be estimated
Maximum(e) ==
    LET sentinel == e.mode = "mle"
        Ok(k) == IF sentinel /\ NoEstimate(e.pats[k])
                 THEN TRUE
                 ELSE AtMaximum(e.items, e.prior, e.pats[k], e.score[k], e.d, e.edge, e.eps)
        Told(k) == (sentinel /\ NoEstimate(e.pats[k])) =>
                 IF e.sentinel = NaN THEN e.score[k][1] = NaN
                 ELSE IF AllWrong(e.pats[k]) THEN e.score[k][1] = -e.sentinel
                 ELSE IF AllRight(e.pats[k]) THEN e.score[k][1] = e.sentinel ELSE Abs(e.score[k][1]) = e.sentinel
    IN  Unless(Len(e.score) = Len(e.pats) /\ \A k \in 1..Len(e.pats) : Ok(k), "AtTheMaximum")
        \cup Unless(\A k \in 1..Len(e.score) : Told(k), "NoEstimateReported")

\* sessions: e.batches[b] the respondents of a batch, e.scores[b] their scores; e.whole: everyone at once
Batches(e) ==
    Unless(\A b \in 1..Len(e.batches) : /\ Len(e.scores[b]) = Len(e.batches[b])
                                        /\ \A j \in 1..Len(e.batches[b]) : NearSeq(e.scores[b][j], e.whole[e.batches[b][j]], e.tol), "SameAbilityInAnyBatch")
    \cup Unless(\A r, s \in 1..Len(e.pats) : e.pats[r] = e.pats[s] => NearSeq(e.whole[r], e.whole[s], e.tol), "SameAnswersSameAbility")
Better(p, q) == \A i \in 1..Len(p) : (p[i] = MISSING) = (q[i] = MISSING) /\ (p[i] = MISSING \/ p[i] <= q[i])
Rising(e) ==
    Unless(\A r, s \in 1..Len(e.pats) : (Better(e.pats[r], e.pats[s]) /\ e.whole[r][1] # NaN /\ e.whole[s][1] # NaN) => e.whole[r][1] <= e.whole[s][1] + e.tol, "MoreIsNeverLess")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "posterior" -> Posterior(e)
           [] e.op = "maximum" -> Maximum(e)
           [] e.op = "batches" -> Batches(e)
           [] e.op = "rising" -> Rising(e)
=============================================================================
