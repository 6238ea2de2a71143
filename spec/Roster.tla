------------------------------- MODULE Roster -------------------------------
(* Scoring sessions: respondents are handed in for scoring in batches, in   *)
(* any order and grouping, alone, repeatedly or next to copies of           *)
(* themselves.  What a respondent gets is a function of the answers alone.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, MaxBatch, MaxBatches
VARIABLES batches, seen
vars == <<batches, seen>>
\* respondents 1..N; value of a respondent's answers: two respondents may share their answers
Value(r) == r % 3
Init == batches = <<>> /\ seen = [r \in 1..N |-> {}]
Hand(b) == /\ Len(batches) < MaxBatches
           /\ batches' = Append(batches, b)
           /\ seen' = [r \in 1..N |-> IF \E k \in 1..Len(b) : b[k] = r THEN seen[r] \cup {Value(r)} ELSE seen[r]]
Together == Hand([k \in 1..N |-> k])
Backwards == Hand([k \in 1..N |-> N + 1 - k])
Alone == \E r \in 1..N : Hand(<<r>>)
Twin == \E r \in 1..N : \E k \in 2..3 : Hand([j \in 1..k |-> r])
Some == \E n \in 1..MaxBatch : \E b \in [1..n -> 1..N] : Hand(b)
Next == Together \/ Backwards \/ Alone \/ Twin \/ Some
Spec == Init /\ [][Next]_vars
OneValue == \A r \in 1..N : Cardinality(seen[r]) <= 1
SameForSame == \A r, s \in 1..N : Value(r) = Value(s) /\ seen[r] # {} /\ seen[s] # {} => seen[r] = seen[s]
Everyone == \A k \in 1..Len(batches) : \A j \in 1..Len(batches[k]) : seen[batches[k][j]] # {}
-----------------------------------------------------------------------------
\* random sessions for the real code
GenBatch == LET n == RandomElement(1..MaxBatch) IN [k \in 1..n |-> RandomElement(1..N)]
Pick == \/ Together \/ Backwards
        \/ Hand(<<RandomElement(1..N)>>) \/ Hand(LET r == RandomElement(1..N) IN <<r, r>>)
        \/ Hand(GenBatch) \/ Hand(GenBatch) \/ Hand(GenBatch)
Done == /\ Len(batches) = MaxBatches
        /\ Serialize(ToJson(batches) \o "\n", IOEnv.OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ UNCHANGED vars
GenSpec == Init /\ [][(Len(batches) < MaxBatches /\ Pick) \/ Done]_vars
=============================================================================
