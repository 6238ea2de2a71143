------------------------------ MODULE Tracing ------------------------------
(* Acceptance of a recorded trace.  Every line of the trace is one observed *)
(* call of the implementation.  A trace specification defines Clauses(e):   *)
(* the names of the clauses of the specification that event e breaks.  The  *)
(* verdict is total: every event is judged, and the failing clauses of all  *)
(* of them are written out when the last event has been consumed.           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

CONSTANT Clauses(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad

TraceInit == l = 1 /\ bad = <<>>

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET f == Clauses(Trace[l])
       IN  bad' = IF f = {} THEN bad ELSE Append(bad, [i |-> Trace[l].i, c |-> SetToSeq(f)])

Finish ==
    /\ l = Len(Trace) + 1
    /\ l' = l + 1
    /\ UNCHANGED bad
    /\ JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>

\* Helpers to write clauses: name c unless P
Unless(P, c) == IF P THEN {} ELSE {c}
=============================================================================
