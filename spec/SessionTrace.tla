---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions.  Steps carry what could be observed after them:       *)
(*   cls   class of the result among the results of the same call; 0 is the *)
(*         result of the call in a process that did nothing else            *)
(*   args  digests of all argument objects after the step                   *)
(*   rnd   digest of the process-wide random state, fp of the float modes   *)
EXTENDS Num, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)

StepClauses(s, args, rnd, fp) ==
    Unless(s.args = args, IF s.a = "overwrite" THEN "ResultsShareNothingWithArguments" ELSE "ArgumentsUntouched")
    \cup Unless(s.fp = fp, "FloatModesUntouched")
    \cup (IF s.a = "draw" THEN Unless(s.rnd = s.own, "DrawsAsAlone")
          ELSE Unless(s.rnd = rnd, "RandomStateUntouched"))
    \cup (IF s.a = "call" THEN Unless(s.cls = 0, "SameCallSameResult") ELSE {})
\* the random state expected after step k is what only the caller's draws made it
RECURSIVE Walk(_, _, _)
Walk(e, k, rnd) ==
    IF k > Len(e.steps) THEN {}
    ELSE StepClauses(e.steps[k], e.args, rnd, e.fp)
         \cup Walk(e, k + 1, IF e.steps[k].a = "draw" THEN e.steps[k].own ELSE rnd)
SessionClauses(e) == Walk(e, 1, e.rnd)

\* the same answers stored in another way
StorageClauses(e) ==
    Unless(Len(e.r) = Len(e.base), "SameShape")
    \cup (IF Len(e.r) # Len(e.base) THEN {} ELSE Unless(NearSeq(e.r, e.base, e.tol), "SameAnswersSameResult"))
    \cup Unless(e.unchanged, "ArgumentsUntouched")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "session" -> SessionClauses(e)
           [] e.op = "storage" -> StorageClauses(e)
=============================================================================
