------------------------------ MODULE MCRobot ------------------------------
(***************************************************************************)
(* A robot whose joints turn by quarters and slide by units (everything is *)
(* integer): every history of Depth operations.  The invariants relate the *)
(* operators the traces are judged with (kinematics, jacobians, bodies) to *)
(* each other; the histories are replayed on the code.                     *)
(***************************************************************************)
EXTENDS Robot, FiniteSets, Json
CONSTANTS Depth
VARIABLES hist, fresh
vars == <<robotVars, hist, fresh>>

QuarterC(x) == LET k == x % 4 IN IF k = 0 THEN 1 ELSE IF k = 2 THEN -1 ELSE 0
QuarterS(x) == LET k == x % 4 IN IF k = 1 THEN 1 ELSE IF k = 3 THEN -1 ELSE 0
\* quarter turns around x, y or z (Rodrigues), unit slides
QuarterMotion(kind, a, x) ==
  IF kind = "R" THEN
    LET c == QuarterC(x)  s == QuarterS(x)
        R == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN c ELSE 0) + s * Skew(a)[i][j] + (1 - c) * a[i] * a[j]]]
    IN <<Append(R[1], 0), Append(R[2], 0), Append(R[3], 0), <<0, 0, 0, 1>>>>
  ELSE <<>>
Slide(a, x) == <<<<1, 0, 0, x * a[1]>>, <<0, 1, 0, x * a[2]>>, <<0, 0, 1, x * a[3]>>, <<0, 0, 0, 1>>>>
MCMotion(kind, a, x) == IF kind = "R" THEN QuarterMotion(kind, a, x) ELSE Slide(a, x)

Tr(x, y, z) == <<<<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>, <<0, 0, 0, 1>>>>
TurnX == <<<<1, 0, 0, 0>>, <<0, 0, -1, 1>>, <<0, 1, 0, 0>>, <<0, 0, 0, 1>>>>
TurnZ == <<<<0, -1, 0, 2>>, <<1, 0, 0, 0>>, <<0, 0, 1, 1>>, <<0, 0, 0, 1>>>>
J(p, T, k, a) == [parent |-> p, T |-> T, kind |-> k, axis |-> a]
Body(j, m, c) == [joint |-> j, m |-> m, c |-> c, I |-> <<<<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, 4>>>>]
Model == [joints |-> <<J(0, I4, "F", <<0, 0, 0>>), J(1, Tr(1, 0, 0), "R", <<0, 0, 1>>), J(2, TurnX, "P", <<1, 0, 0>>), J(1, TurnZ, "R", <<0, 1, 0>>)>>,
          bodies |-> <<Body(1, 2, <<0, 0, 1>>), Body(2, 1, <<1, 0, 0>>), Body(3, 3, <<0, 2, 0>>), Body(4, 1, <<1, 1, 0>>)>>,
          frames |-> <<[joint |-> 1, T |-> I4], [joint |-> 2, T |-> I4], [joint |-> 3, T |-> I4], [joint |-> 4, T |-> I4], [joint |-> 3, T |-> TurnZ]>>,
          g |-> <<0, 0, -10>>, rotor |-> <<0, 0, 0>>, base0 |-> I4]

Neutral == [base |-> I4, q |-> <<0, 0, 0>>, v |-> VZero(9), a |-> VZero(9)]
MCInit == /\ rob = Model /\ conf = Neutral /\ lim = <<>> /\ kin = KinOf(Neutral)
          /\ hist = <<>> /\ fresh = TRUE
Do(op) == Len(hist) < Depth /\ hist' = Append(hist, op)
Targets == {TurnX, TurnZ}
MCNext ==
  \/ \E j \in 1..3, x \in {1, 2} : /\ Do([op |-> "joint", j |-> j, x |-> x]) /\ SetConf([conf EXCEPT !.q[j] = x]) /\ fresh' = FALSE
  \/ \E T \in Targets : /\ Do([op |-> "base", T |-> T]) /\ SetConf([conf EXCEPT !.base = T]) /\ fresh' = FALSE
  \/ \E f \in {3, 5}, T \in Targets : /\ fresh /\ Do([op |-> "frame", f |-> f, T |-> T]) /\ SetConf([conf EXCEPT !.base = BaseFor(f, T)]) /\ fresh' = FALSE
  \/ /\ ~fresh /\ Do([op |-> "update"]) /\ Update /\ fresh' = TRUE
  \/ /\ Do([op |-> "reset"]) /\ SetConf(Neutral) /\ fresh' = FALSE
MCSpec == MCInit /\ [][MCNext]_vars

K == KinOf(conf)
Frames == 1..Len(rob.frames)
\* frames are rigid, and relative placements do not depend on the base
Rigid == \A f \in Frames : MM(FRot(FrameIn(K, f)), MT(FRot(FrameIn(K, f)))) = MId(3)
BaseFree == LET K0 == KinOf([conf EXCEPT !.base = I4]) IN \A f, g \in Frames : Relative(K, f, g) = Relative(K0, f, g)
\* setting a frame puts it where asked
Placed == fresh => \A f \in Frames, T \in Targets : FrameIn(KinOf([conf EXCEPT !.base = BaseFor(f, T)]), f) = T
\* the column of a sliding joint is the displacement of a unit move; that of a turning joint is orthogonal to its lever
SlideColumn == \A f \in Frames : LET A == FrameIn(K, f)  B == FrameIn(KinOf([conf EXCEPT !.q[2] = @ + 1]), f)
                                     c == [i \in 1..6 |-> FrameJac(K, f, "lwa")[i][8]]
                                 IN SubSeq(c, 1, 3) = VSub(FPos(B), FPos(A)) /\ SubSeq(c, 4, 6) = VZero(3)
\* a half turn moves a point by twice its (orthogonal) lever: the velocity is axis x lever
TurnColumn == \A f \in Frames, j \in {2, 4} :
   LET c == [i \in 1..6 |-> FrameJac(K, f, "lwa")[i][5 + j]]
       A == FPos(FrameIn(K, f))  B == FPos(FrameIn(KinOf([conf EXCEPT !.q[j - 1] = @ + 2]), f))
   IN VCross(SubSeq(c, 4, 6), VSub(B, A)) = VScale(-2, SubSeq(c, 1, 3))
\* translating the base translates everything; the three references of a jacobian agree
References == \A f \in Frames : LET T == FrameIn(K, f)  L == FrameJac(K, f, "local")  W == FrameJac(K, f, "lwa")  O == FrameJac(K, f, "world") IN
   /\ MM(FRot(T), Lin(L)) = Lin(W) /\ Ang(O) = Ang(W)
   /\ MAdd(Lin(O), MScale(-1, Lin(W))) = MM(Skew(FPos(T)), Ang(W))
\* the mass matrix is symmetric, its first block is the total mass, and the centroidal momentum of the base translations is m v
MassProps == LET M == MassMatrix(K)  A == CentroidalMap(K) IN
   /\ MT(M) = M /\ M[1][1] = TotalMass /\ M[1][2] = 0
   /\ MNear(MM(MT(FRot(K.oM[1])), Lin(A)), SubSeq(M, 1, 3), "1e-9")
   /\ MScale(TotalMass, Ang(FrameJac(K, 1, "world"))) = MScale(TotalMass, Ang(JointJac(K, 1, "lwa")))
\* gravity is the gradient of the potential energy (exact for sliding joints) and weighs on the base only vertically
GravityProps == LET E(k) == NNeg(VDot(rob.g, SumV(LAMBDA b : VScale(b.m, BodyCom(k, b)), NB, VZero(3))))
                    G == GravityForces(K)
                IN /\ G[8] = E(KinOf([conf EXCEPT !.q[2] = @ + 1])) - E(K)
                   /\ MV(FRot(K.oM[1]), SubSeq(G, 1, 3)) = VScale(-TotalMass, rob.g)
Emit == Len(hist) = Depth => PrintT(<<"BEH", ToJson([hist |-> hist])>>)
=============================================================================
