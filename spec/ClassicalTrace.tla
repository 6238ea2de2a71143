---------------------------- MODULE ClassicalTrace ----------------------------
EXTENDS Classical, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
TT == INSTANCE Tracing
TraceSpec == TT!TraceSpec
Unless(P, c) == TT!Unless(P, c)
N(e) == Len(e.x)
Each(e, s, P(_)) == Len(s) = N(e) /\ \A i \in 1..N(e) : P(i)
\* ill-conditioned (hardly any variation): judged loosely
Serial(e, i) ==
    LET q == TLCEval(Paired(e.x, i))
        own == TLCEval([k \in 1..Len(q) |-> e.x[i][q[k]]])
        lev == Levels(own)
        z == TLCEval(ZOf(TLCEval([k \in 1..Len(q) |-> PersonMean(e.x, Others(e.x, i), q[k])])))
        y == TLCEval([k \in 1..Len(q) |-> CHOOSE c \in 1..Len(lev) : lev[c] = own[k]])
        r == e.polyserial[i]
    IN  IF Len(lev) < 2 THEN r = NaN
        ELSE /\ IsNum(r)
             /\ Cuts([c \in 1..Len(lev) |-> CountIf(y, LAMBDA v : v = c)], e.cuts[i])
             /\ Abs(r) > 62000 \/ (PolyserialScore(z, y, e.cuts[i], r - 1000)[1] > 0 /\ PolyserialScore(z, y, e.cuts[i], r + 1000)[1] < 0)
CttClauses(e) ==
    Unless(Each(e, e.counts, LAMBDA i : e.counts[i] = CountOf(e.x, i)), "CountsValidAnswers")
    \cup Unless(Each(e, e.mean, LAMBDA i : Near(e.mean[i], MeanFx(Answers(e.x, i)), 3)), "MeanOfValidAnswers")
    \cup Unless(Each(e, e.std, LAMBDA i : IF CountOf(e.x, i) < 2 THEN e.std[i] = NaN ELSE Near(e.std[i], StdFx(Answers(e.x, i)), 12 + (e.std[i] \div 6000))), "StdOfValidAnswers")
    \cup Unless(Each(e, e.corr, LAMBDA i : Near(e.corr[i], ItemRest(e.x, i), 30 + (Len(e.x[1]) \div 8))), "ItemRestCorrelation")
    \cup Unless(Each(e, e.alpha, LAMBDA i : LET a == Alpha(e.x, Others(e.x, i)) IN a = NaN \/ Near(e.alpha[i], a, 130 + (Abs(a) \div 500))), "AlphaWithoutTheItem")
    \cup (IF e.serial THEN Unless(Each(e, e.polyserial, LAMBDA i : Serial(e, i)), "PolyserialOfTheRest") ELSE {})
    \cup Unless(e.untouched, "DataUntouched")
EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "ctt" -> CttClauses(e)
           [] e.op = "alpha" -> Unless(LET a == Alpha(e.x, All(e.x)) IN a = NaN \/ Near(e.alpha, a, 130 + (Abs(a) \div 500)), "AlphaOfTheAnswers") \cup Unless(e.untouched, "DataUntouched")
=============================================================================
