----------------------------- MODULE ReportTrace -----------------------------
(* What an estimation reports: shapes, ranges, abilities, information       *)
(* criteria, and that all of it belongs together.                           *)
EXTENDS Scoring, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

In(x, lo, hi) == IsNum(x) /\ x >= lo - 1 /\ x <= hi + 1
\* e.steps: thresholds every item has; rows of the report as wide as the widest
Widest(e) == FoldLeft(LAMBDA acc, x : MaxOf(acc, x), 0, e.steps)
Shaped(e) ==
    /\ Len(e.disc) = Len(e.steps) /\ \A i \in 1..Len(e.steps) : Len(e.disc[i]) = e.factors
    /\ Len(e.diff) = Len(e.steps)
    /\ \A i \in 1..Len(e.steps) : /\ Len(e.diff[i]) = Widest(e)
                                  /\ \A k \in 1..Widest(e) : (e.diff[i][k] = NaN) = (k > e.steps[i])
DiscRange(e) ==
    IF e.factors = 1 THEN \A i \in 1..Len(e.disc) : In(e.disc[i][1], e.arange[1], e.arange[2])
    ELSE \A i \in 1..Len(e.disc) : \A f \in 1..e.factors :
            LET last == Len(e.disc) - f + 1     \* identifies factor f
            IN  IF i > last THEN e.disc[i][f] = 0 \/ \E g \in 1..(f - 1) : i = Len(e.disc) - g + 1 /\ e.disc[i][f] = 0
                ELSE IF i = Len(e.disc) THEN In(e.disc[i][f], 13107, 327680)
                ELSE In(e.disc[i][f], -196608, IF i = last THEN 262144 ELSE 196608)
\* zeros above the reversed diagonal of the last items
Identified(e) == e.factors > 1 =>
    \A f \in 1..e.factors : LET i == Len(e.disc) - f + 1 IN
        /\ \A g \in (f + 1)..e.factors : e.disc[i][g] = 0
        /\ (f = 1 \/ e.guess) => e.disc[i][f] > 0
DiffRange(e) == e.brange = <<>> \/ \A i \in 1..Len(e.diff) : \A k \in 1..Len(e.diff[i]) : e.diff[i][k] = NaN \/ In(e.diff[i][k], e.brange[1], e.brange[2])
Extra(e) ==
    CASE e.fn = "threepl_mml" -> Len(e.extra) = Len(e.steps) /\ \A i \in 1..Len(e.extra) : In(e.extra[i][1], 0, 21627)
      [] e.fn = "gum_mml" ->       \* thresholds mirrored around delta
            /\ Len(e.extra) = Len(e.steps)
            /\ \A i \in 1..Len(e.extra) :
                LET w == Widest(e)  d == e.extra[i][1]  tau == e.diff[i]  row == e.folded[i] IN
                /\ In(d, -131072, 131072)
                /\ Len(row) = 2 * w + 1
                /\ Near(row[w + 1], d, 2)
                /\ \A k \in 1..w : IF tau[k] = NaN THEN row[k] = NaN /\ row[2 * w + 2 - k] = NaN
                                   ELSE Near(row[k], d + tau[k], 2) /\ Near(row[2 * w + 2 - k], d - tau[k], 2)
            /\ e.sign[2] = 0 \/ e.extra[e.sign[1]][1] * e.sign[2] >= 0
      [] OTHER -> TRUE
Items(e) == [i \in 1..Len(e.steps) |->
    LET b == [k \in 1..e.steps[i] |-> e.diff[i][k]] IN
    CASE e.kind = "multi" -> [a |-> e.disc[i], b |-> b, kind |-> "multi"]
      [] e.kind = "unfold" -> [a |-> e.disc[i][1], b |-> b, delta |-> e.extra[i][1], kind |-> "unfold"]
      [] OTHER -> [a |-> e.disc[i][1], b |-> b, kind |-> e.kind]]
\* log-likelihood (fx) of the respondents: pattern k occurs e.n[k] times
LogLik(vs, n) == FoldLeft(LAMBDA acc, k : acc + n[k] * FLn(Share(vs[k])), 0, [k \in 1..Len(n) |-> k])
Persons(e) == SumSeq(e.n)
Scored(e) ==
    LET nodes == TLCEval(Product(e.th, e.factors))
        w == TLCEval(ProductWeights(e.w, e.factors))
        w0 == TLCEval(ProductWeights(e.w0, e.factors))
        tab == TLCEval(TableAt(Items(e), nodes))
        vs == TLCEval([k \in 1..Len(e.pats) |-> Weighted(tab, w, e.pats[k])])
        ll == TLCEval(LogLik(vs, e.n))
        ll0 == TLCEval(IF e.factors > 1 THEN 0 ELSE LogLik([k \in 1..Len(e.pats) |-> Weighted(tab, w0, e.pats[k])], e.n))
        lnN == FLn(FInt(Persons(e)))
        Able == \A k \in 1..Len(e.pats) : \A f \in 1..e.factors : \A j \in 1..Len(e.ability[k]) :
                    Near(e.ability[k][j][f], Mean(vs[k], nodes, f), e.tol)
        \* criteria are divided by 2 to stay in range
        Crit == /\ Near(e.aic[1], e.k * FX - ll, e.ltol) /\ Near(e.bic[1], (e.k * lnN) \div 2 - ll, e.ltol)
                /\ e.factors = 1 => /\ Near(e.aic[2], -ll0, e.ltol) /\ Near(e.bic[2], -ll0, e.ltol)
                                    /\ Near(e.aic[3], e.aic[2] - e.aic[1], 3) /\ Near(e.bic[3], e.bic[2] - e.bic[1], 3)
                /\ e.factors > 1 => Near(e.ll, ll, e.ltol)
    IN  Unless(e.able = Persons(e) /\ Able, "AbilityIsPosteriorMean") \cup Unless(Crit, "CriteriaOfTheReport")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE IF ~Shaped(e) THEN {"OneRowPerItem"}
    ELSE Unless(DiscRange(e) /\ DiffRange(e), "WithinTheSearchRange")
         \cup Unless(Identified(e), "IdentificationPattern")
         \cup Unless(Extra(e), "FurtherParameters")
         \cup (IF e.scored THEN Scored(e) ELSE {})
=============================================================================
