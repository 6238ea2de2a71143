----------------------------- MODULE OptionsMC -----------------------------
(* Callers, their dictionaries and the results they hold, as objects that   *)
(* can be overwritten.  Validation must not let any write through.          *)
EXTENDS Options, Json, IOUtils, Randomization

CONSTANTS Calls,         \* length of the histories
          Emit           \* write the histories out (simulation)

VARIABLES dicts, results, hist
vars == <<dicts, results, hist>>

Writes == [max_iteration |-> IntV(3), quadrature_n |-> IntV(21), use_LUT |-> BoolV(FALSE)]
Slots == 1..2
TryPairs == UNION {{<<key, x>> : x \in Try(key)} : key \in Keys}

Init == dicts = [s \in Slots |-> [c |-> "dict", d |-> [k \in {} |-> IntV(1)]]] /\ results = <<>> /\ hist = <<>>
Say(r) == hist' = Append(hist, r)
Set(s, key, x) ==      \* the caller writes an entry
    /\ dicts' = [dicts EXCEPT ![s].d = Merge(@, key :> x)]
    /\ UNCHANGED results
    /\ Say([a |-> "set", s |-> s, key |-> key, x |-> x])
Drop(s) ==
    /\ dicts[s].d # <<>>
    /\ dicts' = [dicts EXCEPT ![s].d = [k \in {} |-> IntV(1)]]
    /\ UNCHANGED results
    /\ Say([a |-> "clear", s |-> s])
Validate(s) ==
    /\ results' = Append(results, IF Acceptable(dicts[s]) THEN Full(dicts[s]) ELSE [k \in {} |-> IntV(1)])
    /\ UNCHANGED dicts
    /\ Say([a |-> "validate", s |-> s])
Scribble(r, key) ==    \* the caller writes into a result it was given
    /\ r \in 1..Len(results) /\ key \in DOMAIN results[r]
    /\ results' = [results EXCEPT ![r][key] = Writes[key]]
    /\ UNCHANGED dicts
    /\ Say([a |-> "scribble", r |-> r, key |-> key, x |-> Writes[key]])

Step ==
    \/ \E s \in Slots : \E p \in (IF Emit THEN RandomSubset(9, TryPairs) ELSE
            {<<"max_iteration", IntV(3)>>, <<"max_iteration", IntV(0)>>, <<"use_LUT", BoolV(FALSE)>>}) : Set(s, p[1], p[2])
    \/ \E s \in Slots : Drop(s) \/ Validate(s) \/ (Emit /\ Validate(s) /\ Len(hist) > 0)
    \/ \E r \in 1..Len(results) : \E key \in DOMAIN Writes : Scribble(r, key)
Done ==
    /\ Len(hist) = Calls
    /\ Emit /\ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
    /\ hist' = <<>> /\ results' = <<>> /\ dicts' = [s \in Slots |-> [c |-> "dict", d |-> [k \in {} |-> IntV(1)]]]
Next == (Len(hist) < Calls /\ Step) \/ Done
Spec == Init /\ [][Next]_vars
View == <<dicts, results, Len(hist)>>

\* a new validation never sees what was written into earlier results
FreshDefaults == [][\A s \in Slots : Validate(s) /\ dicts[s].d = <<>> => results'[Len(results')] = Defaults]_vars
CompleteOrNothing == \A r \in 1..Len(results) : DOMAIN results[r] \in {{}, Keys}
DefaultsValid == \A key \in Keys : Valid(key, Defaults[key])
OverridesOnlyWhatIsGiven ==
    \A s \in Slots : Acceptable(dicts[s]) =>
        \A key \in Keys : Full(dicts[s])[key] = IF key \in DOMAIN dicts[s].d THEN dicts[s].d[key] ELSE Defaults[key]
=============================================================================
