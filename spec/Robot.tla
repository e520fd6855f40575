-------------------------------- MODULE Robot --------------------------------
(***************************************************************************)
(* The robot model (src/placo/model/robot_wrapper.cpp): a floating base    *)
(* and a tree of revolute and prismatic joints carrying rigid bodies.      *)
(*                                                                         *)
(* Joint 1 is the floating base (6 velocity coordinates: linear then       *)
(* angular, in the base frame); joint j >= 2 has one coordinate, at index  *)
(* 5 + j of the velocities.                                                *)
(*                                                                         *)
(* State: the model, the configuration (which setters change at once) and  *)
(* the kinematics, which is that of the configuration of the last update.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num
CONSTANT Motion(_, _, _)     \* displacement (4x4) of a joint of a kind and axis for a coordinate

VARIABLES
  rob,    \* [joints: seq of [parent, T, kind, axis], bodies: seq of [joint, m, c, I], frames: seq of [joint, T], g, rotor]
  conf,   \* [base (4x4), q (seq, one per joint >= 2), v (6 + n), a (6 + n)]
  lim,    \* [lo, hi, vmax, tmax: seqs]
  kin     \* [oM: seq of joint frames, v: velocities] at the last update
robotVars == <<rob, conf, lim, kin>>

NJ == Len(rob.joints)
NV == NJ + 5
I4 == MId(4)
Skew(w) == <<<<0, NNeg(w[3]), w[2]>>, <<w[3], 0, NNeg(w[1])>>, <<NNeg(w[2]), w[1], 0>>>>
TwistMat(v) == LET S == Skew(<<v[4], v[5], v[6]>>) IN <<Append(S[1], v[1]), Append(S[2], v[2]), Append(S[3], v[3]), <<0, 0, 0, 0>>>>
Apply(T, p) == VAdd(MV(FRot(T), p), FPos(T))
RealMotion(kind, axis, x) ==
  LET R == IF kind = "R" THEN RotExp(VScale(x, axis)) ELSE MId(3)
      p == IF kind = "R" THEN <<0, 0, 0>> ELSE VScale(x, axis)
  IN <<Append(R[1], p[1]), Append(R[2], p[2]), Append(R[3], p[3]), <<0, 0, 0, 1>>>>

\* ---- forward kinematics
RECURSIVE Placements(_, _, _)
Placements(base, q, k) ==
  IF k = 1 THEN <<base>>
  ELSE LET prev == TLCEval(Placements(base, q, k - 1))
           j == rob.joints[k]
       IN Append(prev, MM(MM(prev[j.parent], j.T), Motion(j.kind, j.axis, q[k - 1])))
KinOf(c) == [oM |-> TLCEval(Placements(c.base, c.q, NJ)), v |-> c.v]
FrameIn(K, f) == MM(K.oM[rob.frames[f].joint], rob.frames[f].T)

RECURSIVE IsAncestor(_, _)
IsAncestor(a, j) == a = j \/ (j > 1 /\ IsAncestor(a, rob.joints[j].parent))

\* configuration reached after following velocities v for dt
Integrated(c, v, dt) == [c EXCEPT !.base = MM(c.base, MExp(MScale(dt, TwistMat(SubSeq(v, 1, 6))))),
                                  !.q = VAdd(c.q, VScale(dt, SubSeq(v, 7, NV)))]

\* ---- jacobians: 6 rows (linear, angular), expressed in the world axes
Column(K, k, joint, p) ==
  IF k <= 6 THEN
    LET R == MT(FRot(K.oM[1])) IN        \* rows of the transpose: axes of the base in the world
    IF k <= 3 THEN R[k] \o <<0, 0, 0>>
    ELSE VCross(R[k - 3], VSub(p, FPos(K.oM[1]))) \o R[k - 3]
  ELSE LET j == k - 5  jt == rob.joints[j] IN
    IF ~IsAncestor(j, joint) THEN <<0, 0, 0, 0, 0, 0>>
    ELSE LET a == MV(FRot(K.oM[j]), jt.axis) IN
         IF jt.kind = "R" THEN VCross(a, VSub(p, FPos(K.oM[j]))) \o a ELSE a \o <<0, 0, 0>>
\* jacobian of the point of a joint's body that is at p in the world
JacAt(K, joint, p) == TLCEval(MT([k \in 1..NV |-> Column(K, k, joint, p)]))
Lin(J) == SubSeq(J, 1, 3)
Ang(J) == SubSeq(J, 4, 6)
InAxes(R, J) == MM(R, Lin(J)) \o MM(R, Ang(J))
FrameJac(K, f, ref) ==
  LET T == FrameIn(K, f) IN
  CASE ref = "world" -> JacAt(K, rob.frames[f].joint, <<0, 0, 0>>)
    [] ref = "local" -> InAxes(MT(FRot(T)), JacAt(K, rob.frames[f].joint, FPos(T)))
    [] OTHER -> JacAt(K, rob.frames[f].joint, FPos(T))
JointJac(K, j, ref) ==
  CASE ref = "world" -> JacAt(K, j, <<0, 0, 0>>)
    [] ref = "local" -> InAxes(MT(FRot(K.oM[j])), JacAt(K, j, FPos(K.oM[j])))
    [] OTHER -> JacAt(K, j, FPos(K.oM[j]))

\* derivative of F(kinematics) when the configuration moves with velocities v: central difference
Eps == "1e-5"
Derivative(F(_), c, v) ==
  LET A == TLCEval(F(KinOf(Integrated(c, v, Eps))))
      B == TLCEval(F(KinOf(Integrated(c, v, NNeg(Eps)))))
  IN MScale("50000.0", MAdd(A, MScale(-1, B)))

\* ---- bodies
BodyCom(K, b) == Apply(K.oM[b.joint], b.c)
BodyInertia(K, b) == LET R == FRot(K.oM[b.joint]) IN MM(MM(R, b.I), MT(R))
RECURSIVE SumM(_, _, _)
\* sum of the matrices F(b) over the first n bodies, starting from Z
SumM(F(_), n, Z) == IF n = 0 THEN Z ELSE MAdd(SumM(F, n - 1, Z), F(rob.bodies[n]))
RECURSIVE SumV(_, _, _)
SumV(F(_), n, Z) == IF n = 0 THEN Z ELSE VAdd(SumV(F, n - 1, Z), F(rob.bodies[n]))
NB == Len(rob.bodies)
RECURSIVE MassUpTo(_)
MassUpTo(n) == IF n = 0 THEN 0 ELSE NAdd(MassUpTo(n - 1), rob.bodies[n].m)
TotalMass == MassUpTo(NB)
ZeroM(r, c) == [i \in 1..r |-> VZero(c)]
Com(K) == VScale(NDiv("1.0", TotalMass), SumV(LAMBDA b : VScale(b.m, BodyCom(K, b)), NB, VZero(3)))
ComJac(K) == MScale(NDiv("1.0", TotalMass), SumM(LAMBDA b : MScale(b.m, Lin(JacAt(K, b.joint, BodyCom(K, b)))), NB, ZeroM(3, NV)))
\* momenta at the center of mass
CentroidalMap(K) ==
  LET c == TLCEval(Com(K)) IN
  SumM(LAMBDA b : LET p == TLCEval(BodyCom(K, b))
                      J == JacAt(K, b.joint, p)
                  IN MScale(b.m, Lin(J)) \o MAdd(MScale(b.m, MM(Skew(VSub(p, c)), Lin(J))), MM(BodyInertia(K, b), Ang(J))),
       NB, ZeroM(6, NV))
Diagonal(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]]
\* kinetic energy is half of v^T M v (bodies and rotors)
MassMatrix(K) ==
  SumM(LAMBDA b : LET J == JacAt(K, b.joint, BodyCom(K, b)) IN
                  MAdd(MScale(b.m, MM(MT(Lin(J)), Lin(J))), MM(MM(MT(Ang(J)), BodyInertia(K, b)), Ang(J))),
       NB, Diagonal(VZero(6) \o rob.rotor))
GravityForces(K) == SumV(LAMBDA b : VScale(NNeg(b.m), MTV(Lin(JacAt(K, b.joint, BodyCom(K, b))), rob.g, NV)), NB, VZero(NV))
\* forces that keep the accelerations to zero (Newton-Euler equations of each body)
Bias(c) ==
  LET K == TLCEval(KinOf(c)) IN
  VAdd(GravityForces(K),
       SumV(LAMBDA b :
              LET J == JacAt(K, b.joint, BodyCom(K, b))
                  Jd == Derivative(LAMBDA K2 : JacAt(K2, b.joint, BodyCom(K2, b)), c, c.v)
                  acc == MV(Jd, c.v)
                  w == MV(Ang(J), c.v)
                  I == TLCEval(BodyInertia(K, b))
                  mom == VAdd(MV(I, SubSeq(acc, 4, 6)), VCross(w, MV(I, w)))
              IN VAdd(MTV(Lin(J), VScale(b.m, SubSeq(acc, 1, 3)), NV), MTV(Ang(J), mom, NV)),
            NB, VZero(NV)))

\* position of frame b in frame a
Relative(K, a, b) == MM(FInv(FrameIn(K, a)), FrameIn(K, b))

----------------------------------------------------------------------------
\* Transitions
Load(r, c, lm) == rob' = r /\ conf' = c /\ lim' = lm
SetConf(c) == conf' = c /\ UNCHANGED <<rob, lim, kin>>
SetLim(l) == lim' = l /\ UNCHANGED <<rob, conf, kin>>
Update == kin' = KinOf(conf) /\ UNCHANGED <<rob, conf, lim>>
\* the base that puts frame f (as of the last update) at T, the joints being what they are
BaseFor(f, T) == MM(MM(T, FInv(FrameIn(kin, f))), conf.base)
=============================================================================
