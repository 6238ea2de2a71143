----------------------------- MODULE LookupTrace -----------------------------
(* Recorded look-ups, and estimates of items that nobody or everybody       *)
(* endorses.                                                                *)
EXTENDS Lookup, Json, IOUtils
VARIABLES l, bad
CONSTANT Clauses(_)
T == INSTANCE Tracing
TraceSpec == T!TraceSpec
Unless(P, c) == T!Unless(P, c)
MISSING == -99999

OneLookup(e) ==
    LET side == TLCEval([k \in 1..Len(e.s) |-> Side(e.th, e.w, e.a, e.lo, e.hi, e.s[k])])
        In == {k \in 1..Len(e.s) : side[k] = "inside"}
        Proper(k) == e.s[k] > 0 /\ e.s[k] < FX
    IN  Unless(Len(e.b) = Len(e.s), "Shape")
        \cup IF Len(e.b) # Len(e.s) THEN {} ELSE
        Unless(\A k \in 1..Len(e.rs) : InvertsRare(e.th, e.w, e.a, e.rb[k], e.rs[k], e.d), "LookupInvertsRareShares") \cup
        Unless(\A k \in In : Inverts(e.th, e.w, e.a, e.b[k], e.s[k], e.d, e.eps), "LookupInverts")
        \cup Unless(\A k \in 1..Len(e.s) : ~Proper(k) => e.b[k] = (IF side[k] = "low" THEN e.lo ELSE e.hi), "LookupEnds")
        \cup Unless(\A k \in 1..Len(e.s) : Proper(k) /\ side[k] # "inside" =>
                        Near(e.b[k], IF side[k] = "low" THEN e.lo ELSE e.hi, e.d), "LookupOutOfRange")
        \* shares are recorded in increasing order
        \cup Unless(\A k \in 1..(Len(e.s) - 1) : k \in In /\ (k + 1) \in In => e.b[k] >= e.b[k + 1] - 1, "LookupMonotone")
        \cup Unless(\A k \in 1..Len(e.s) : ~Proper(k) => \A m \in In : IF e.s[k] <= 0 THEN e.b[k] >= e.b[m] ELSE e.b[k] <= e.b[m], "LookupMonotone")

LookupClauses(e) == UNION {OneLookup([th |-> e.th, w |-> e.w, lo |-> e.lo, hi |-> e.hi, d |-> e.d, eps |-> e.eps,
                                     a |-> e.at[k].a, s |-> e.at[k].s, b |-> e.at[k].b,
                                     rs |-> e.at[k].rs, rb |-> e.at[k].rb]) : k \in 1..Len(e.at)}

-----------------------------------------------------------------------------
(* Items and their shares of endorsements.  lo, hi: the lowest and highest  *)
(* answer of the table.                                                     *)
Count(row, v) == CountIf(row, LAMBDA x : x = v)
Answered(row) == CountIf(row, LAMBDA x : x # MISSING)
Nobody(e, i) == Answered(e.x[i]) > 0 /\ Count(e.x[i], e.xlo) = Answered(e.x[i])
Everybody(e, i) == Answered(e.x[i]) > 0 /\ Count(e.x[i], e.xhi) = Answered(e.x[i])
NearEnd == 294912                                         \* 4.5 on a range of -6..6
ExtremeClauses(e) ==
    LET n == Len(e.x)
        rest == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~Nobody(e, i) /\ ~Everybody(e, i))
    IN  Unless(\A i \in 1..n : Nobody(e, i) => IsNum(e.diff[i][1]) /\ e.diff[i][1] >= NearEnd /\ e.diff[i][1] <= 6 * FX, "UnendorsedAtUpperEnd")
        \cup Unless(\A i \in 1..n : Everybody(e, i) => IsNum(e.diff[i][1]) /\ e.diff[i][1] <= -NearEnd /\ e.diff[i][1] >= -6 * FX, "FullyEndorsedAtLowerEnd")
        \cup Unless(\A k \in 1..Len(rest) : NearSeq(e.diff[rest[k]], e.rdiff[k], e.tol) /\ NearSeq(e.disc[rest[k]], e.rdisc[k], e.tol), "OthersUndisturbed")
\* strictly smaller share of endorsements, larger difficulty (unless both sit at the same end)
AtEnd(b) == Abs(b) >= 6 * FX - 700
SharesClauses(e) ==
    LET n == Len(e.x)
        yes == TLCEval([i \in 1..n |-> Count(e.x[i], 1)])
        all == TLCEval([i \in 1..n |-> Count(e.x[i], 1) + Count(e.x[i], 0)])
    IN  Unless(\A i, j \in 1..n : yes[i] * all[j] < yes[j] * all[i] =>
                    IsNum(e.diff[i][1]) /\ IsNum(e.diff[j][1]) /\
                    (e.diff[i][1] > e.diff[j][1] \/ (AtEnd(e.diff[i][1]) /\ AtEnd(e.diff[j][1]) /\ (e.diff[i][1] < 0) = (e.diff[j][1] < 0))),
                "SmallerShareLargerDifficulty")
        \cup Unless(\A i, j \in 1..n : yes[i] * all[j] = yes[j] * all[i] => Near(e.diff[i][1], e.diff[j][1], e.tol), "SameShareSameDifficulty")

EventClauses(e) ==
    IF e.st # "ok" THEN {"Completes"}
    ELSE CASE e.op = "lookups" -> LookupClauses(e)
           [] e.op = "extreme" -> ExtremeClauses(e)
           [] e.op = "shares" -> SharesClauses(e)
=============================================================================
