-------------------------------- MODULE Integ --------------------------------
(***************************************************************************)
(* Integrated decision variables and linear inverted pendulums             *)
(* (src/placo/problem/integrator.cpp, src/placo/humanoid/lipm.cpp).        *)
(*                                                                         *)
(* A segment is the linear system  d/dt (X, u) = M (X, u)  driven by a     *)
(* piecewise-constant command: step k lasts dt and holds the entry k of    *)
(* the segment's decision variable.  Its initial state is an affine        *)
(* function of the decision vector, or the final state of another segment. *)
(* After a successful solve the decision vector is known and the segment   *)
(* is a continuous trajectory.                                             *)
(*                                                                         *)
(* State: the segments, and the last solution (<<>> before).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num

VARIABLES segs,  \* [M, order, dt, n, start, t0, prev (0: none), XA, Xb]
          sol
integVars == <<segs, sol>>

IntegInit == segs = <<>> /\ sol = <<>>

Shift(order) == [i \in 1..(order + 1) |-> [j \in 1..(order + 1) |-> IF j = i + 1 THEN 1 ELSE 0]]

\* exp(M dt) is the transition of (X, u); its last column applies to the command
Transition(s, dt) == MExp(MScale(dt, s.M))
Advance(E, order, X, u) == TLCEval([i \in 1..order |-> NAdd(VDot(SubSeq(E[i], 1, order), X), NMul(E[i][order + 1], u))])

Command(s, x, k) == x[s.start + k + 1]            \* k from 0

RECURSIVE Iterate(_, _, _, _, _)
Iterate(E, s, x, X, k) == IF k = 0 THEN X ELSE LET Y == TLCEval(Iterate(E, s, x, X, k - 1)) IN Advance(E, s.order, Y, Command(s, x, k - 1))

RECURSIVE InitialState(_, _), StateAtStep(_, _, _)
StateAtStep(s, x, k) == LET E == TLCEval(Transition(s, s.dt))  X0 == TLCEval(InitialState(s, x)) IN Iterate(E, s, x, X0, k)
InitialState(s, x) ==
  IF s.prev = 0 THEN VAdd(MV(s.XA, SubSeq(x, 1, IF s.XA = <<>> THEN 0 ELSE Len(s.XA[1]))), s.Xb)
  ELSE LET p == segs[s.prev] IN StateAtStep(p, x, p.n)

\* step that contains the time t, and the time elapsed in it
ClampStep(s, t) ==
  LET k == NFloor(NDiv(NSub(t, s.t0), s.dt)) IN IF k < 0 THEN 0 ELSE IF k >= s.n THEN s.n - 1 ELSE k
\* full state (X and command) at time t when step k is used for it
StateIn(s, x, t, k) ==
  LET X == TLCEval(StateAtStep(s, x, k))
      r == NSub(NSub(t, s.t0), NMul(k, s.dt))
  IN Append(Advance(Transition(s, r), s.order, X, Command(s, x, k)), Command(s, x, k))
Duration(s) == NMul(s.n, s.dt)
Clamp(s, t) == NMin(NMax(t, s.t0), NAdd(s.t0, Duration(s)))

AddSegment(s) == segs' = Append(segs, s) /\ UNCHANGED sol
MoveStart(i, t) == segs' = [segs EXCEPT ![i].t0 = t] /\ UNCHANGED sol
Solved(x) == sol' = x /\ UNCHANGED segs

\* Linear inverted pendulum: quantities derived from position, velocity, acceleration and jerk
Pendulum(kind, X, omega) ==
  CASE kind = "pos" -> X[1] [] kind = "vel" -> X[2] [] kind = "acc" -> X[3] [] kind = "jerk" -> X[4]
    [] kind = "dcm" -> NAdd(X[1], NDiv(X[2], omega))
    [] kind = "zmp" -> NSub(X[1], NDiv(X[3], NMul(omega, omega)))
    [] kind = "dzmp" -> NSub(X[2], NDiv(X[4], NMul(omega, omega)))
=============================================================================
