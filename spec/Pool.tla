-------------------------------- MODULE Pool --------------------------------
(* Work divided over processes, as in standard_errors_bootstrap and         *)
(* polychoric_correlation.  Units 1..Units are split in one chunk per       *)
(* process; processes take chunks as they become idle, in any order, and    *)
(* may be arbitrarily slow; the units of a chunk draw from the stream that  *)
(* belongs to the chunk, in order, and read the data from a shared segment  *)
(* that outlives every reader.  A unit may fail; then the call fails.  The  *)
(* results are put back by chunk, so nothing depends on the schedule.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Units, Procs, MayFail

\* sizes of the chunks: numpy.array_split
Size(c) == (Units \div Procs) + IF c <= (Units % Procs) THEN 1 ELSE 0
First(c) == 1 + FoldLeft(LAMBDA acc, x : acc + Size(x), 0, [x \in 1..(c - 1) |-> x])
UnitOf(c, k) == First(c) + k - 1
Chunks == 1..Procs

VARIABLES
    segment,    \* "none", "open", "gone"
    waiting,    \* chunks nobody has taken
    work,       \* process -> <<chunk, units done>>, <<>> when idle
    result,     \* chunk -> what its units produced
    state       \* chunk -> "new", "done", "failed"
    , answer    \* what the caller gets: <<>> until there is one
vars == <<segment, waiting, work, result, state, answer>>

Init == /\ segment = "none" /\ waiting = Chunks /\ work = [p \in 1..Procs |-> <<>>]
        /\ result = [c \in Chunks |-> <<>>] /\ state = [c \in Chunks |-> "new"] /\ answer = <<>>
Open == segment = "none" /\ segment' = "open" /\ UNCHANGED <<waiting, work, result, state, answer>>
\* chunks are handed out in order, to whichever process is idle
Take(p) == /\ segment = "open" /\ work[p] = <<>> /\ waiting # {}
           /\ LET c == CHOOSE x \in waiting : \A y \in waiting : x <= y
              IN  work' = [work EXCEPT ![p] = <<c, 0>>] /\ waiting' = waiting \ {c}
           /\ UNCHANGED <<segment, result, state, answer>>
\* the value of a unit depends on the unit (its pair of items) and on the stream and position it draws from
Value(c, k) == [unit |-> UnitOf(c, k), stream |-> c, draw |-> k]
Step(p) == /\ work[p] # <<>> /\ segment = "open"
           /\ LET c == work[p][1]  k == work[p][2] + 1 IN
              /\ k <= Size(c)
              /\ result' = [result EXCEPT ![c] = Append(@, Value(c, k))]
              /\ work' = [work EXCEPT ![p] = <<c, k>>]
           /\ UNCHANGED <<segment, waiting, state, answer>>
Fail(p) == /\ MayFail /\ work[p] # <<>> /\ work[p][2] < Size(work[p][1])
           /\ state' = [state EXCEPT ![work[p][1]] = "failed"]
           /\ work' = [work EXCEPT ![p] = <<>>]
           /\ UNCHANGED <<segment, waiting, result, answer>>
Put(p) == /\ work[p] # <<>> /\ work[p][2] = Size(work[p][1])
          /\ state' = [state EXCEPT ![work[p][1]] = "done"]
          /\ work' = [work EXCEPT ![p] = <<>>]
          /\ UNCHANGED <<segment, waiting, result, answer>>
\* nobody reads any more
Release == /\ segment = "open" /\ waiting = {} /\ \A p \in 1..Procs : work[p] = <<>>
           /\ segment' = "gone" /\ UNCHANGED <<waiting, work, result, state, answer>>
Answer == /\ segment = "gone" /\ answer = <<>>
          /\ answer' = IF \E c \in Chunks : state[c] = "failed" THEN <<"failed">>
                       ELSE <<"ok", FlattenSeq([c \in Chunks |-> result[c]])>>
          /\ UNCHANGED <<segment, waiting, work, result, state>>
Next == Open \/ Release \/ Answer \/ \E p \in 1..Procs : Take(p) \/ Step(p) \/ Fail(p) \/ Put(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ok == answer # <<>> /\ answer[1] = "ok"
\* every unit exactly once, in its place, whatever the schedule
EveryUnitInPlace == Ok => Len(answer[2]) = Units /\ \A u \in 1..Units : answer[2][u].unit = u
\* the answer is a function of Units and Procs alone
ScheduleFree == Ok => answer[2] = FlattenSeq([c \in Chunks |-> [k \in 1..Size(c) |-> Value(c, k)]])
\* no draw is used twice
NoDrawTwice == Ok => \A u, v \in 1..Units : u # v => <<answer[2][u].stream, answer[2][u].draw>> # <<answer[2][v].stream, answer[2][v].draw>>
\* the segment is there for every reader and gone when the caller has its answer
Reading == (\E p \in 1..Procs : work[p] # <<>>) => segment = "open"
NothingLeft == answer # <<>> => segment = "gone"
Balanced == \A c, d \in Chunks : Size(c) - Size(d) \in {-1, 0, 1}
AllUnits == FoldLeft(LAMBDA acc, c : acc + Size(c), 0, [c \in Chunks |-> c]) = Units
Answers == <>(answer # <<>>)
=============================================================================
