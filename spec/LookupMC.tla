------------------------------ MODULE LookupMC ------------------------------
(* Solving for the difficulty by halving an interval, for two shares side   *)
(* by side: the bracket is never lost, the result inverts the marginal      *)
(* probability, a smaller share never gets a smaller difficulty, and shares *)
(* out of reach end at the right side.                                      *)
EXTENDS Lookup
CONSTANTS Shares, Alphas, Skews
Nodes == <<-131072, -65536, 0, 65536, 131072>>
Weights(sk) == IF sk = 0 THEN <<FFx(4096), FFx(16384), FFx(24576), FFx(16384), FFx(4096)>>
               ELSE <<FFx(16384), FFx(24576), FFx(12288), FFx(8192), FFx(4096)>>
Lo == -6 * FX
Hi == 6 * FX
Width == 256
VARIABLES a, sk, s, lo, hi
vars == <<a, sk, s, lo, hi>>
M(b) == MarginalFx(Nodes, Weights(sk), a, b)
Init == /\ a \in Alphas /\ sk \in Skews /\ s \in {q \in Shares \X Shares : q[1] <= q[2]}
        /\ lo = <<Lo, Lo>> /\ hi = <<Hi, Hi>>
Halve(i) == LET mid == (lo[i] + hi[i]) \div 2 IN
    /\ hi[i] - lo[i] > Width
    /\ IF FLess(FFx(s[i]), Marginal(Nodes, Weights(sk), a, mid)) THEN lo' = [lo EXCEPT ![i] = mid] /\ UNCHANGED hi
                        ELSE hi' = [hi EXCEPT ![i] = mid] /\ UNCHANGED lo
    /\ UNCHANGED <<a, sk, s>>
Next == Halve(1) \/ (hi[1] - lo[1] <= Width /\ Halve(2))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Where(i) == Side(Nodes, Weights(sk), a, Lo, Hi, s[i])
Solved(i) == hi[i] - lo[i] <= Width
Bracket == \A i \in 1..2 : Where(i) = "inside" => M(lo[i]) >= s[i] /\ M(hi[i]) <= s[i]
Ends == \A i \in 1..2 : Solved(i) => (Where(i) = "low" => lo[i] = Lo) /\ (Where(i) = "high" => hi[i] = Hi)
Correct == \A i \in 1..2 : Solved(i) /\ Where(i) = "inside" => Inverts(Nodes, Weights(sk), a, (lo[i] + hi[i]) \div 2, s[i], Width, 8)
Monotone == Solved(1) /\ Solved(2) => lo[1] >= lo[2]
Finishes == <>(Solved(1) /\ Solved(2))
=============================================================================
