------------------------- MODULE PresentationTrace -------------------------
(* Recorded estimations of the same data in several presentations.         *)
EXTENDS Presentation, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

NearAny(a, b, t) == a = ANY \/ Near(a, b, t)
Rows(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : NearAny(a[i][k], b[i][k], t)
\* rows with blanks must be blank in the same places
Follows(p, e, t) ==
    Unless(Rows(p.disc, e.disc, t), "DiscriminationFollows")
    \cup Unless(Rows(p.diff, e.diff, t), "DifficultyFollows")
    \cup Unless(Rows(p.extra, e.extra, t), "OtherParametersFollow")
    \cup Unless(Rows(p.ability, e.ability, t), "AbilityFollows")

\* where a search ended at the end of its range (e.edge), the data did not settle the estimates
Settled(est, edge) == edge = 0 \/ \A i \in 1..Len(est.disc) : \A k \in 1..Len(est.disc[i]) : Abs(est.disc[i][k]) < edge
ViewClauses(e, v) ==
    Unless(PresentAll(e.x, v.steps) = v.y, "PresentedAsIntended")
    \cup IF Settled(e.est, e.edge) /\ Settled(v.est, e.edge) THEN Follows(ActAll(e.est, v.steps), v.est, v.tol) ELSE {}
PresentClauses(e) == UNION {ViewClauses(e, e.views[k]) : k \in 1..Len(e.views)}

\* Ability estimation: an unanswered item is as if it were not on the test.
\*   ability of every respondent on the whole test; short[p] is that respondent's
\*   ability on the test of the items with an answer, kept[p]
AnsweredItems(x, p) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i][p] # MISSING)
ShorterClauses(e) ==
    Unless(\A p \in 1..NPersons(e.x) : e.kept[p] = AnsweredItems(e.x, p), "PresentedAsIntended")
    \cup Unless(Rows(e.ability, e.short, e.tol), "UnansweredAsIfNotOnTheTest")
\* results for tables that differed only before tagging
TaggedClauses(e) ==
    Unless(\A k \in 1..Len(e.tagged) : e.tagged[k] = e.x, "TaggedAlike")
    \cup Unless(\A k \in 1..Len(e.res) : NearSeq(e.res[k], e.res[1], e.tol), "TaggedCellsHaveNoInfluence")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "present" -> PresentClauses(e)
           [] e.op = "shorter" -> ShorterClauses(e)
           [] e.op = "tagged" -> TaggedClauses(e)
=============================================================================
