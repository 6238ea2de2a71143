----------------------------- MODULE JointTrace -----------------------------
(* Estimates of the joint routines against the likelihood equations.        *)
(*  e.pats, e.n: patterns of answers and how many respondents gave them     *)
(*  e.th: for every pattern a location claimed to maximise its likelihood   *)
(*  e.alike: each pattern counts once when abilities are standardised       *)
EXTENDS Joint, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)
Six == 393216

JointClauses(e) ==
    LET items == e.items
        m == Len(items)
        use == SelectSeq([k \in 1..Len(e.pats) |-> k], LAMBDA k : Informative(items, e.pats[k]))
        pats == [j \in 1..Len(use) |-> e.pats[use[j]]]
        n == [j \in 1..Len(use) |-> e.n[use[j]]]
        raw == [j \in 1..Len(use) |-> e.th[use[j]]]
        th == TLCEval(Standardised(raw, IF e.alike THEN [j \in 1..Len(use) |-> 1] ELSE n))
        Maximal == \A j \in 1..Len(use) : AtMax(LAMBDA t : PersonEquation(items, pats[j], t), raw[j], e.d, -Six, Six)
        ItemWith(i, a, k, x) == [items[i] EXCEPT !.a = a, !.b = [@ EXCEPT ![k] = x]]
        Lo(i, k) == IF items[i].kind = "credit" \/ k = 1 THEN -Six ELSE MaxOf(-Six, items[i].b[k - 1])
        Hi(i, k) == IF items[i].kind = "credit" \/ k = Steps(items[i]) THEN Six ELSE MinOf(Six, items[i].b[k + 1])
        Thresholds == \A i \in 1..m : \A k \in 1..Steps(items[i]) :
            AtMax(LAMBDA x : ItemEquation(LAMBDA c, t : ByThreshold(ItemWith(i, items[i].a, k, x), c, t, k), pats, n, th, i), items[i].b[k], e.d, Lo(i, k), Hi(i, k))
        OneA(i, a) == ItemEquation(LAMBDA c, t : ByDiscrimination(ItemWith(i, a, 1, items[i].b[1]), c, t), pats, n, th, i)
        Slopes == CASE e.slopes = "given" -> \A i \in 1..m : items[i].a = e.given
                    [] e.slopes = "single" -> /\ \A i \in 1..m : items[i].a = items[1].a
                                              /\ AtMax(LAMBDA a : FFold(LAMBDA i : OneA(i, a), m), items[1].a, e.d, 16384, 327680)
                    [] e.slopes = "each" -> \A i \in 1..m : AtMax(LAMBDA a : OneA(i, a), items[i].a, e.d, 16384, 262144)
    IN  Unless(e.blank, "BlankBehindTheThresholds")
        \cup (IF ~e.converged THEN {} ELSE
              Unless(Maximal, "AbilitiesMaximise") \cup Unless(Thresholds, "DifficultiesMaximise") \cup Unless(Slopes, "DiscriminationsMaximise"))
EventClauses(e) == IF e.st # "ok" THEN {"Completes"} ELSE JointClauses(e)
=============================================================================
