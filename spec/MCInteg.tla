------------------------------- MODULE MCInteg -------------------------------
(***************************************************************************)
(* A second-order integrator over every command sequence with values in    *)
(* {-1, 0, 2} and a chain of two segments; dt = 2 keeps everything         *)
(* integer.  The recursion is compared with the closed form and with the   *)
(* kinematics of constant accelerations; segments are chained continuously.*)
(***************************************************************************)
EXTENDS Integ, TLC, Json
CONSTANTS N

Commands == {-1, 0, 2}
Pieces == {<<1, 0>>, <<0, 1>>, <<-3, 2>>}
E2(dt) == <<<<1, dt, (dt * dt) \div 2>>, <<0, 1, dt>>, <<0, 0, 1>>>>     \* exp of the shift matrix, dt even

VARIABLES u, X0, k, X
vars == <<u, X0, k, X>>
MCInit == /\ u \in [1..N -> Commands] /\ X0 \in Pieces /\ k = 0 /\ X = X0
          /\ segs = <<[M |-> Shift(2), order |-> 2, dt |-> 2, n |-> N, start |-> 0, t0 |-> 0, prev |-> 0, XA |-> <<<<>>, <<>>>>, Xb |-> X0]>>
          /\ sol = u
MCNext == /\ k < N /\ k' = k + 1 /\ X' = Advance(E2(2), 2, X, u[k + 1])
          /\ UNCHANGED <<u, X0, integVars>>
MCSpec == MCInit /\ [][MCNext]_<<vars, integVars>>

\* the recursion is the iteration used by the trace specification
SameAsIterate == X = Iterate(E2(2), segs[1], u, X0, k)
\* closed form: velocity is the sum of the accelerations, position follows
RECURSIVE SumU(_)
SumU(j) == IF j = 0 THEN 0 ELSE SumU(j - 1) + u[j]
RECURSIVE Pos(_)
Pos(j) == IF j = 0 THEN X0[1] ELSE Pos(j - 1) + 2 * (X0[2] + 2 * SumU(j - 1)) + 2 * u[j]
ClosedForm == X = <<Pos(k), X0[2] + 2 * SumU(k)>>
\* superposition: the state is affine in the command and the initial state
Linear == \A v \in {[i \in 1..N |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..N |-> 1]} :
   VSub(Iterate(E2(2), segs[1], VAdd(u, v), X0, k), X) = Iterate(E2(2), segs[1], v, <<0, 0>>, k)
Emit == k = N => PrintT(<<"BEH", ToJson([u |-> u, X0 |-> X0])>>)
=============================================================================
