---------------------------- MODULE SyntheticTrace ----------------------------
EXTENDS Synthetic, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
TT == INSTANCE Tracing
TraceSpec == TT!TraceSpec
Unless(P, c) == TT!Unless(P, c)
\* e.counts[i][t][k+1]: answers k of item i at location t (e.th[t], e.m respondents each);
\* e.pairs: [i, j, t, k, h, n]: n respondents at t answered k to item i and h to item j;
\* e.lags: [i, t, k, h, n]: n respondents answered h to item i right after one who answered k
LawClauses(e) ==
    LET law == TLCEval([i \in 1..Len(e.items) |-> [t \in 1..Len(e.th) |-> TLCEval(AnswerLaw(e.items[i], e.th[t]))]])
        Cats(i) == Cardinality(DOMAIN law[i][1])
    IN  IF ~(e.rows = Len(e.items) /\ e.cols = e.m * Len(e.th) /\ e.integers) THEN {"OneAnswerEach"}
        ELSE Unless(\A i \in 1..Len(e.items) : \A t \in 1..Len(e.th) : Len(e.counts[i][t]) = Cats(i) /\ SumSeq(e.counts[i][t]) = e.m, "AnswersInRange")
        \cup (IF \E i \in 1..Len(e.items) : Len(e.counts[i][1]) # Cats(i) THEN {}
              ELSE Unless(\A i \in 1..Len(e.items) : \A t \in 1..Len(e.th) : \A k \in 0..(Cats(i) - 1) :
                            Plausible(e.counts[i][t][k + 1], e.m, law[i][t][k]), "CategoryProbabilities")
                   \cup Unless(\A x \in 1..Len(e.pairs) : LET p == e.pairs[x] IN
                            Plausible(p[6], e.m, FMul(law[p[1]][p[3]][p[4]], law[p[2]][p[3]][p[5]])), "IndependentItems")
                   \cup Unless(\A x \in 1..Len(e.lags) : LET p == e.lags[x] IN
                            Plausible(p[5], e.m - 1, FMul(law[p[1]][p[2]][p[3]], law[p[1]][p[2]][p[4]])), "IndependentRespondents"))
AllSame(s) == \A k \in 1..Len(s) : s[k] = s[1]
EventClauses(e) ==
    CASE e.op = "offer" -> IF e.st # "ok" THEN {"Completes"}
                           ELSE IF Admitted(e.kind, e.b) THEN Unless(~e.refused, "Accepted") ELSE Unless(e.refused, "Refused")
      [] e.st # "ok" -> {"Completes"}
      [] e.op = "law" -> LawClauses(e)
      [] e.op = "same" -> Unless(AllSame(e.tables), e.name)
      [] e.op = "differ" -> Unless(Cardinality({e.tables[k] : k \in 1..Len(e.tables)}) = Len(e.tables), "AnotherSeedAnotherTable")
      [] e.op = "quiet" -> Unless(e.ok, "LeavesTheCallersGenerator")
=============================================================================
