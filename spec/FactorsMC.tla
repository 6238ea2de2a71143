------------------------------ MODULE FactorsMC ------------------------------
(* Principal axis factoring of exact one-factor matrices: whatever unique   *)
(* variances it starts from, it ends at the true ones.  And the predicates  *)
(* of Factors on rotations, angles and entropies of a grid.                 *)
EXTENDS Factors
CONSTANTS Loads, Starts, Steps, Angles
VARIABLES load, u, n, t
vars == <<load, u, n, t>>
Init == \/ /\ load \in [1..3 -> Loads] /\ u \in {[i \in 1..3 |-> s] : s \in Starts} /\ n = 0 /\ t = <<>>
        \/ /\ load = <<>> /\ u = <<>> /\ n = 0 /\ t \in [1..2 -> Angles]
R == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN FX ELSE FxMul(load[i], load[j])]]
True3 == [i \in 1..3 |-> FX - FxMul(load[i], load[i])]
Next == /\ load # <<>> /\ n < Steps
        /\ u' = AxisStep(R, u) /\ n' = n + 1 /\ UNCHANGED <<load, t>>
Spec == Init /\ [][Next]_vars
FixedPoint == load # <<>> /\ n = 0 => NearSeq(AxisStep(R, True3), True3, 40)
Arrives == load # <<>> /\ n = Steps => NearSeq(u, True3, 500)
Exact == load # <<>> => Reproduces(R, [i \in 1..3 |-> <<load[i]>>], True3, 2) /\ ~Reproduces(R, [i \in 1..3 |-> <<load[i] + 3000>>], True3, 500)
OnSphere == t # <<>> => Near(Length2(Sphere(t)), FX, 30) /\ SameDirection(Sphere(t), Sphere(t), 60)
\* a plane rotation keeps lengths; two loadings' entropy is between nothing and ln 2
Rotation == t # <<>> => LET c == CosAny(t[1])  s == SinAny(t[1])  Q == <<<<c, s>>, <<-s, c>>>>  L == <<<<50000, 20000>>, <<-30000, 45000>>>> IN
    /\ Orthogonal(Q, 20)
    /\ LET M == Times(L, Q) IN \A i \in 1..2 : Near(Length2(M[i]), Length2(L[i]), 40)
    /\ (c # 0 \/ s # 0) => RowEntropy(<<c, s>>) >= -20 /\ RowEntropy(<<c, s>>) <= 45426 + 30
    /\ Near(RowEntropy(<<c, s>>), RowEntropy(<<s, -c>>), 6) /\ Near(RowEntropy(<<2 * c, 2 * s>>), RowEntropy(<<c, s>>), 6)
=============================================================================
