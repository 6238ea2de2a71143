---------------------------- MODULE MaximumTrace ----------------------------
(* Recorded marginal estimates, with rivals near them.                      *)
EXTENDS Maximum, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

\* e.rivals[r]: another parameter set for item r.i
\* e.sets[s]: another parameter set for all items
Admissible(item, e) ==
    /\ item.kind # "multi" => item.a >= e.arange[1] - 1 /\ item.a <= e.arange[2] + 1 /\ \A k \in 1..Steps(item) : Abs(item.b[k]) <= 6 * FX + 1
    /\ item.kind = "guess" => item.c >= 0 /\ item.c <= 21627
    /\ item.kind = "unfold" => Abs(item.delta) <= 131073
MaximumClauses(e) ==
    LET nodes == TLCEval(Product(e.th, e.factors))
        w == TLCEval(ProductWeights(e.w, e.factors))
        tab == TLCEval(TableAt(e.items, nodes))
        ll == TLCEval(Likelihood(tab, w, e.pats, e.n))
        used == {e.rivals[r].i : r \in 1..Len(e.rivals)}
        rest == TLCEval([i \in used |-> Without(tab, w, e.pats, i)])
        base == TLCEval([i \in used |-> Adding(rest[i], e.pats, e.n, i, tab[i])])
        row == TLCEval([r \in 1..Len(e.rivals) |-> Row(e.rivals[r].item, nodes)])
    IN  Unless(\A r \in 1..Len(e.rivals) : Admissible(e.rivals[r].item, e), "RivalsAreAdmissible")
        \cup (IF e.shares THEN Unless(\A i \in 1..Len(e.items) : Reproduces(e.items[i], tab[i], w, e.pats, e.n, i, e.stol), "SharesReproduced")
                          \cup Unless(\A r \in 1..Len(e.rivals) : Reproduces(e.rivals[r].item, row[r], w, e.pats, e.n, e.rivals[r].i, e.stol), "RivalsAreAdmissible")
              ELSE {})
        \cup Unless(\A r \in 1..Len(e.rivals) : LET i == e.rivals[r].i IN Adding(rest[i], e.pats, e.n, i, row[r]) <= base[i] + e.ltol, "NoNeighbourMoreLikely")
        \cup Unless(\A s \in 1..Len(e.sets) : Likelihood(TableAt(e.sets[s], nodes), w, e.pats, e.n) <= ll + e.ltol, e.what)
\* e.grid[i][j]: item i with discrimination e.alpha[j]
MeanClauses(e) ==
    LET nodes == TLCEval(Product(e.th, 1))
        tab == TLCEval(TableAt(e.items, nodes))
        ll(i) == LET rest == Without(tab, e.w, e.pats, i) IN TLCEval([j \in 1..Len(e.alpha) |-> Adding(rest, e.pats, e.n, i, Row(e.grid[i][j], nodes))])
        disc == [i \in 1..Len(e.items) |-> e.items[i].a]
    IN  Unless(\A i \in 1..Len(e.items) : Reproduces(e.items[i], tab[i], e.w, e.pats, e.n, i, e.stol), "SharesReproduced")
        \cup Unless(\A i \in 1..Len(e.items) : \A j \in 1..Len(e.alpha) : e.grid[i][j].a = e.alpha[j] /\ Reproduces(e.grid[i][j], Row(e.grid[i][j], nodes), e.w, e.pats, e.n, i, e.stol), "RivalsAreAdmissible")
        \cup Unless(\/ Near(e.scale, ScaleMean(e.scales, e.ws, disc, [i \in 1..Len(disc) |-> 1]), e.mtol)
                    \* the known finding: an item counts once for every category it has
                    \/ ~e.strict /\ Near(e.scale, ScaleMean(e.scales, e.ws, disc, [i \in 1..Len(disc) |-> Steps(e.items[i]) + 1]), e.mtol),
                    "ScaleIsPosteriorMean")
        \* thresholds end at 6: an item whose share would need more for some discrimination is left out
        \cup Unless(\A i \in 1..Len(e.items) : (\A j \in 1..Len(e.alpha) : \A k \in 1..Len(e.grid[i][j].b) : Abs(e.grid[i][j].b[k]) < 386000) => Near(disc[i], DiscriminationMean(e.alpha, e.wa, ll(i), e.scale), e.mtol), "DiscriminationIsPosteriorMean")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "maximum" -> MaximumClauses(e)
           [] e.op = "mean" -> MeanClauses(e)
=============================================================================
