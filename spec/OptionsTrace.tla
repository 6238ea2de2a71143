---------------------------- MODULE OptionsTrace ----------------------------
(* Recorded validations and routine calls against Options.                  *)
EXTENDS Options, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

Entries(s) == [key \in {s[i].key : i \in 1..Len(s)} |-> (CHOOSE i \in 1..Len(s) : s[i].key = key /\ \A j \in 1..Len(s) : s[j].key = key => j <= i)]
Dict(s) == LET e == Entries(s) IN [key \in DOMAIN e |-> s[e[key]].x]
Same(x, y) == x.k = y.k /\ x.v = y.v /\ x.w = y.w
SameDict(f, g) == DOMAIN f = DOMAIN g /\ \A key \in DOMAIN f : Same(f[key], g[key])

\* history: dictionaries and results as they should be, compared with everything observed after each step
Apply(st, s) ==
    CASE s.a = "set" -> [st EXCEPT !.d[s.s] = Merge(@, s.key :> s.x)]
      [] s.a = "clear" -> [st EXCEPT !.d[s.s] = [k \in {} |-> IntV(1)]]
      [] s.a = "validate" ->
            LET a == [c |-> "dict", d |-> st.d[s.s]]
            IN  [st EXCEPT !.r = Append(@, IF Acceptable(a) THEN Full(a) ELSE [k \in {} |-> IntV(1)])]
      [] s.a = "scribble" ->
            IF s.r <= Len(st.r) /\ s.key \in DOMAIN st.r[s.r] THEN [st EXCEPT !.r[s.r][s.key] = s.x] ELSE st
RECURSIVE Walk(_, _, _)
Walk(st, steps, k) ==
    IF k > Len(steps) THEN {}
    ELSE LET s == steps[k]
             u == TLCEval(Apply(st, s))
             nd == Len(s.dicts)  nr == Len(s.results)
             okd == nd = Len(u.d) /\ \A i \in 1..nd : SameDict(Dict(s.dicts[i]), u.d[i])
             okr == nr = Len(u.r) /\ \A i \in 1..nr : SameDict(Dict(s.results[i]), u.r[i])
             last == s.a = "validate" /\ nr = Len(u.r) /\ ~SameDict(Dict(s.results[nr]), u.r[nr])
         IN  Unless(okd, "CallersDictionaryUntouched")
             \cup Unless(~last, IF DOMAIN u.r[Len(u.r)] = {} THEN "InvalidRejected" ELSE "DefaultsWithOverrides")
             \cup Unless(okr \/ last, "ResultsShareNothing")
             \cup (IF okd /\ okr THEN Walk(u, steps, k + 1) ELSE {})

HistoryClauses(e) == Walk([d |-> <<[k \in {} |-> IntV(1)], [k \in {} |-> IntV(1)]>>, r |-> <<>>], e.steps, 1)

\* one argument given to one routine
Arg(e) == [c |-> e.c, d |-> Dict(e.d)]
CallClauses(e) ==
    (IF Acceptable(Arg(e)) THEN Unless(e.out = "ok", "ValidAccepted") ELSE Unless(e.out = "raise", "InvalidRejected"))
    \cup Unless(e.same, "CallersDictionaryUntouched")
    \cup (IF e.fn # "validate_estimation_options" \/ e.out # "ok" \/ ~Acceptable(Arg(e)) THEN {}
          ELSE Unless(SameDict(Dict(e.res), Full(Arg(e))), "DefaultsWithOverrides"))

\* the density was evaluated at these sets of points: size, lowest, highest
Lowest(e) == MinOf(e.a, e.b)
DensityClauses(e) ==
    LET w == e.b - e.a IN
    Unless(Len(e.calls) > 0, "DensityUsed")
    \cup Unless(\A i \in 1..Len(e.calls) : e.calls[i].n = e.n, "RequestedNumberOfPoints")
    \cup Unless(\A i \in 1..Len(e.calls) : e.calls[i].lo > e.a /\ e.calls[i].hi < e.b, "WithinRequestedBounds")
    \cup Unless(\A i \in 1..Len(e.calls) : e.calls[i].lo - e.a < w \div 8 /\ e.b - e.calls[i].hi < w \div 8, "BoundsCovered")
\* two settings that must not be confused
EffectClauses(e) == Unless(e.differs, "SettingHonoured")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "history" -> HistoryClauses(e)
           [] e.op = "call" -> CallClauses(e)
           [] e.op = "density" -> DensityClauses(e)
           [] e.op = "effect" -> EffectClauses(e)
=============================================================================
