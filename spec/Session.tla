------------------------------ MODULE Session ------------------------------
(* A process that uses the library: it makes calls, keeps their results,    *)
(* overwrites what it was given, and draws from the process-wide random     *)
(* state.  The library may add nothing to this: a call is a function of     *)
(* what it is called with, whatever the storage of its arguments.           *)
EXTENDS Num, Json, IOUtils

CONSTANTS NKeys,         \* different calls (function and arguments)
          Forms,         \* ways to store the arguments of a call
          Length, Emit,
          Leak           \* FALSE for the library; TRUE shows that the invariants notice a shared result

VARIABLES args,          \* what the arguments of each call look like to the caller
          held,          \* results the caller holds: [k, shared, val]
          memo,          \* first result of each call
          rnd,           \* the process-wide random state
          cache,         \* what a leaking library would hand out again
          hist
vars == <<args, held, memo, rnd, cache, hist>>

Keys == 1..NKeys
F(k) == 10 * k                   \* the function of the call: its value never matters, only that it is one
Fresh == 0
Init ==
    /\ args = [k \in Keys |-> Fresh] /\ held = <<>> /\ memo = [k \in Keys |-> 0] /\ rnd = 0
    /\ cache = [k \in Keys |-> F(k)] /\ hist = <<>>

Call(k, s, rebuilt) ==
    LET v == IF Leak THEN cache[k] ELSE F(k)
    IN  /\ held' = Append(held, [k |-> k, val |-> v, form |-> s])
        /\ memo' = [memo EXCEPT ![k] = IF @ = 0 THEN v ELSE @]
        /\ UNCHANGED <<args, rnd, cache>>
        /\ hist' = Append(hist, [a |-> "call", k |-> k, form |-> s, rebuilt |-> rebuilt])
Overwrite(h) ==
    /\ h \in 1..Len(held) /\ held[h].val # -1
    /\ held' = [held EXCEPT ![h].val = -1]
    /\ cache' = IF Leak THEN [cache EXCEPT ![held[h].k] = -1] ELSE cache
    /\ UNCHANGED <<args, memo, rnd>>
    /\ hist' = Append(hist, [a |-> "overwrite", h |-> h])
Draw == rnd' = (rnd + 1) % 3 /\ UNCHANGED <<args, held, memo, cache>> /\ hist' = Append(hist, [a |-> "draw"])

Step == \/ \E k \in Keys : \E s \in Forms : \E b \in BOOLEAN : Call(k, s, b)
        \/ \E h \in 1..Len(held) : Overwrite(h)
        \/ Draw
Done == /\ Len(hist) = Length /\ Emit
        /\ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ args' = [k \in Keys |-> Fresh] /\ held' = <<>> /\ memo' = [k \in Keys |-> 0] /\ rnd' = 0
        /\ cache' = [k \in Keys |-> F(k)] /\ hist' = <<>>
Next == (Len(hist) < Length /\ Step) \/ Done
Spec == Init /\ [][Next]_vars
View == <<args, held, memo, rnd, cache, Len(hist)>>

\* a result not overwritten by its owner is the function's value, whatever happened before
Functional == \A h \in 1..Len(held) : held[h].val \in {F(held[h].k), -1}
Remembered == \A k \in Keys : memo[k] \in {0, F(k)}
FirstUse == [][\A h \in 1..Len(held)' : h > Len(held) => held[h].val' = F(held[h].k')]_vars
ArgsUntouched == \A k \in Keys : args[k] = Fresh
OnlyDrawsMoveTheRandomState == [][rnd' # rnd => held' = held]_vars
=============================================================================
