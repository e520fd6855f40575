---------------------------------- MODULE IK ----------------------------------
(***************************************************************************)
(* The kinematics solver (src/placo/kinematics): a set of prioritised      *)
(* tasks and constraints on a robot, solved for a displacement dq of its   *)
(* configuration.                                                          *)
(*                                                                         *)
(* Every task is, at the current kinematics, a linear relation A dq = b    *)
(* between the displacement and the error of the task (its first order     *)
(* model).  Soft tasks are met in the least squares sense, with their      *)
(* weights; hard tasks exactly; scaled tasks up to a common factor         *)
(* s in [0, 1] which is as close as possible to 1.  Masked degrees of      *)
(* freedom do not move, joint and velocity limits hold.                    *)
(***************************************************************************)
EXTENDS Robot, KKT, FiniteSets

VARIABLE ik   \* [dt, jl, vl, masked (set of joints), fbase, scale, tasks: seq of records, cons: seq of records]
              \* every task and constraint has: type, in (part of the solver), prio, w, and its parameters

E3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
ERow(n, i, x) == [j \in 1..n |-> IF j = i THEN x ELSE 0]

\* ---- masks: some axes of the task frame, of the local frame or of a custom frame (R_local, m.R: world to the frame)
Masked(m, Rlocal, M) ==
  LET X == IF m.frame = "local" THEN MM(Rlocal, M) ELSE IF m.frame = "custom" THEN MM(m.R, M) ELSE M
  IN [k \in 1..Len(m.axes) |-> X[m.axes[k]]]
ColM(v) == [i \in 1..Len(v) |-> <<v[i]>>]
VecOf(M) == [i \in 1..Len(M) |-> M[i][1]]
Rel(A, b) == [A |-> TLCEval(A), b |-> TLCEval(b)]
MaskedRel(m, Rlocal, A, b) == Rel(Masked(m, Rlocal, A), VecOf(Masked(m, Rlocal, ColM(b))))

\* ---- determinants (manipulability)
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE LET n == Len(M)
                   Minor(j) == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
                   RECURSIVE S(_)
                   S(j) == IF j = 0 THEN 0 ELSE NAdd(S(j - 1), NMul(NMul(IF j % 2 = 1 THEN 1 ELSE -1, M[1][j]), Det(TLCEval(Minor(j)))))
               IN S(n)
ManipRows(J, kind) == LET L == [i \in 1..6 |-> SubSeq(J[i], 7, Len(J[i]))] IN
  CASE kind = "position" -> Lin(L) [] kind = "orientation" -> Ang(L) [] OTHER -> L
Manipulability(K, f, kind) == LET J == TLCEval(ManipRows(FrameJac(K, f, "local"), kind)) IN NSqrt(NMax("0.0", Det(TLCEval(MM(J, MT(J))))))

\* ---- first order models A dq = b of the tasks, at the kinematics of the last update
PointJac(f, p) == Lin(JacAt(kin, rob.frames[f].joint, p))
AngJac(f) == Ang(JacAt(kin, rob.frames[f].joint, <<0, 0, 0>>))
DistRow(f, g) == LET u == VSub(FPos(FrameIn(kin, g)), FPos(FrameIn(kin, f)))
                     n == VScale(NDiv("1.0", VNorm(u)), u)
                 IN MM(<<n>>, MAdd(PointJac(g, FPos(FrameIn(kin, g))), MScale(-1, PointJac(f, FPos(FrameIn(kin, f))))))
Dist(f, g) == VNorm(VSub(FPos(FrameIn(kin, g)), FPos(FrameIn(kin, f))))
Unit(v) == VScale(NDiv("1.0", VNorm(v)), v)

TaskRel(t) ==
  CASE t.type = "position" ->
         LET T == TLCEval(FrameIn(kin, t.f)) IN MaskedRel(t.mask, MT(FRot(T)), PointJac(t.f, FPos(T)), VSub(t.target, FPos(T)))
    [] t.type = "orientation" ->
         LET T == TLCEval(FrameIn(kin, t.f)) IN MaskedRel(t.mask, MT(t.R), AngJac(t.f), RotLog(MM(t.R, MT(FRot(T)))))
    [] t.type = "relative_position" ->
         LET Ta == TLCEval(FrameIn(kin, t.f))  pb == FPos(FrameIn(kin, t.g)) IN
         MaskedRel(t.mask, E3, MM(MT(FRot(Ta)), MAdd(PointJac(t.g, pb), MScale(-1, PointJac(t.f, pb)))),
                   VSub(t.target, FPos(Relative(kin, t.f, t.g))))
    [] t.type = "relative_orientation" ->
         LET Ra == TLCEval(FRot(FrameIn(kin, t.f))) IN
         MaskedRel(t.mask, E3, MM(MT(Ra), MAdd(AngJac(t.g), MScale(-1, AngJac(t.f)))),
                   RotLog(MM(t.R, MT(FRot(Relative(kin, t.f, t.g))))))
    [] t.type = "com" -> MaskedRel(t.mask, E3, ComJac(kin), VSub(t.target, Com(kin)))
    [] t.type = "joints" ->        \* joints: sequence of [j, x]
         Rel([k \in 1..Len(t.joints) |-> ERow(NV, 6 + t.joints[k].j, 1)], [k \in 1..Len(t.joints) |-> NSub(t.joints[k].x, conf.q[t.joints[k].j])])
    [] t.type = "gear" ->          \* gears: sequence of [j, src: sequence of [j, r]];  q_j = sum of r q_src
         LET Row(g) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN ERow(NV, 6 + g.j, -1) ELSE VAdd(S(k - 1), ERow(NV, 6 + g.src[k].j, g.src[k].r)) IN S(Len(g.src))
             A == [k \in 1..Len(t.gears) |-> Row(t.gears[k])]
         IN Rel(A, VScale(-1, MV(A, VZero(6) \o conf.q)))
    [] t.type = "distance" -> Rel(DistRow(t.f, t.g), <<NSub(t.d, Dist(t.f, t.g))>>)
    [] t.type = "axisalign" ->     \* the rotation bringing the axis on its target along the shortest way; rotations around the axis are free
         LET u == TLCEval(Unit(MV(FRot(FrameIn(kin, t.f)), t.axis)))  tt == TLCEval(Unit(t.target))
             P == MAdd(MId(3), MScale(-1, [i \in 1..3 |-> VScale(u[i], u)]))
             c == TLCEval(VCross(u, tt))
         IN Rel(MM(P, AngJac(t.f)), IF NLe(VNorm(c), "1e-12") THEN <<0, 0, 0>> ELSE VScale(NAcos(VDot(u, tt)), Unit(c)))
    [] t.type = "wheel" ->         \* joint j (its frame f), rolling axis z; the contact point does not slip and is on the surface
         LET T == TLCEval(MM(FInv(t.S), FrameIn(kin, t.f)))   \* wheel in the surface
             R == FRot(T)
             a == TLCEval([i \in 1..3 |-> R[i][3]])            \* rolling axis
             z == <<0, 0, 1>>
             down == TLCEval(Unit(VSub(VScale(a[3], a), z)))   \* downward direction in the plane of the wheel
             x == TLCEval(Unit(VCross(a, z)))
             y == VCross(z, x)
             contact == TLCEval(VAdd(FPos(T), VScale(t.radius, down)))
             J == TLCEval(MM(MT(FRot(t.S)), PointJac(t.f, Apply(t.S, contact))))
             rows == IF t.omni THEN <<x, z>> ELSE <<x, y, z>>
         IN Rel(MM(rows, J), IF t.omni THEN <<0, NNeg(contact[3])>> ELSE <<0, 0, NNeg(contact[3])>>)
    [] t.type = "regularization" ->  \* jw: weight of each joint ("" when it is the default one)
         LET W(j) == IF t.jw[j] = "" THEN t.mag ELSE t.jw[j] IN
         Rel([j \in 1..(NJ - 1) |-> ERow(NV, 6 + j, NSqrt(W(j)))], VZero(NJ - 1))
    [] t.type = "manipulability" ->  \* one gradient step of the manipulability, of size 1 / (2 lambda^2)
         LET g == [j \in 1..(NJ - 1) |-> Derivative(LAMBDA K : <<<<Manipulability(K, t.f, t.kind)>>>>, conf, ERow(NV, 6 + j, 1))[1][1]]
         IN Rel([j \in 1..(NJ - 1) |-> ERow(NV, 6 + j, t.lambda)],
                VScale(NDiv(IF t.minimize THEN "-0.5" ELSE "0.5", t.lambda), g))
    [] t.type = "momentum" ->
         MaskedRel(t.mask, E3, MScale(NDiv("1.0", ik.dt), Ang(CentroidalMap(kin))), t.L)

\* The part of the objective of a task is a function of A^T A, A^T b and b^T b (rows can be written in many ways).
\* The kinetic energy regularization is given by its quadratic form directly: M / (2 dt^2)
Gram(R) == [Q |-> MM(MT(R.A), R.A), c |-> MTV(R.A, R.b, NV), e |-> VDot(R.b, R.b)]
TaskGram(t) == IF t.type = "kinetic" THEN [Q |-> MScale(NDiv("0.5", NMul(ik.dt, ik.dt)), MassMatrix(kin)), c |-> VZero(NV), e |-> 0]
               ELSE Gram(TLCEval(TaskRel(t)))

\* ---- inequality rows A dq + b >= 0 of the constraints
Opposite(R) == [A |-> MScale(-1, R.A), b |-> VScale(-1, R.b)]
ConRel(c) ==
  CASE c.type = "distance" -> Rel(MScale(-1, DistRow(c.f, c.g)), <<NSub(c.d, Dist(c.f, c.g))>>)
    [] c.type = "com_polygon" ->   \* clockwise polygon; signed distances to the edges beyond the margin
         LET p == TLCEval(SubSeq(Com(kin), 1, 2))
             J == TLCEval(MScale(IF c.dcm THEN NAdd(1, NDiv("1.0", NMul(ik.dt, c.omega))) ELSE 1, SubSeq(ComJac(kin), 1, 2)))
             n == Len(c.polygon)
             N(i) == LET e == VSub(c.polygon[IF i = n THEN 1 ELSE i + 1], c.polygon[i]) IN Unit(<<e[2], NNeg(e[1])>>)
         IN Rel([i \in 1..n |-> MTV(J, N(i), NV)], [i \in 1..n |-> NSub(VDot(N(i), VSub(p, c.polygon[i])), c.margin)])
    [] c.type = "half_spaces" ->   \* A q <= b, A over the joints
         Rel(MScale(-1, [i \in 1..Len(c.A) |-> VZero(6) \o c.A[i]]), VSub(c.b, MV(c.A, conf.q)))
    [] c.type = "yaw" ->           \* |yaw of b in a| <= max
         LET R == TLCEval(FRot(Relative(kin, c.f, c.g)))
             x == TLCEval([i \in 1..3 |-> R[i][1]])
             W == MM(MT(FRot(FrameIn(kin, c.f))), MAdd(AngJac(c.g), MScale(-1, AngJac(c.f))))
             dx == TLCEval(MScale(-1, MM(Skew(x), W)))      \* derivative of the x axis: w x x
             d == NAdd(NMul(x[1], x[1]), NMul(x[2], x[2]))
             row == VScale(NDiv("1.0", d), VSub(VScale(x[1], dx[2]), VScale(x[2], dx[1])))
             a == NAtan2(x[2], x[1])
         IN Rel(<<VScale(-1, row), row>>, <<NSub(c.max, a), NAdd(c.max, a)>>)
    [] c.type = "self_collision" -> \* spheres objs: [joint, c, r], pairs: <<a, b>>; pairs closer than the trigger are kept margin apart
         LET C(i) == Apply(kin.oM[c.objs[i].joint], c.objs[i].c)
             Gap(k) == NSub(VNorm(VSub(C(c.pairs[k][2]), C(c.pairs[k][1]))), NAdd(c.objs[c.pairs[k][1]].r, c.objs[c.pairs[k][2]].r))
             near == SelectSeq([k \in 1..Len(c.pairs) |-> k], LAMBDA k : NLt(Gap(k), c.trigger))
             Row(k) == LET a == c.pairs[k][1]  b == c.pairs[k][2]  n == Unit(VSub(C(b), C(a)))
                       IN MTV(MAdd(Lin(JacAt(kin, c.objs[b].joint, C(b))), MScale(-1, Lin(JacAt(kin, c.objs[a].joint, C(a))))), n, NV)
         IN Rel([i \in 1..Len(near) |-> Row(near[i])], [i \in 1..Len(near) |-> NSub(Gap(near[i]), c.margin)])
    [] c.type = "cone" ->          \* angle between the z axes (first order, in the plane of the axes); sound consequence of the slices
         LET z == TLCEval(LET R == FRot(Relative(kin, c.f, c.g)) IN [i \in 1..3 |-> R[i][3]])
             W == MM(MT(FRot(FrameIn(kin, c.f))), MAdd(AngJac(c.g), MScale(-1, AngJac(c.f))))
             ax == TLCEval(Unit(<<NNeg(z[2]), z[1], 0>>))
         IN Rel(<<VScale(-1, MTV(W, ax, NV))>>, <<NSub(c.max, NAcos(z[3]))>>)

----------------------------------------------------------------------------
\* ---- the program solved: over dq, and the scale when there are scaled tasks
InTasks == SelectSeq([i \in 1..Len(ik.tasks) |-> i], LAMBDA i : ik.tasks[i].in)
InCons == SelectSeq([i \in 1..Len(ik.cons) |-> i], LAMBDA i : ik.cons[i].in)
Scaling == \E i \in 1..Len(ik.tasks) : ik.tasks[i].in /\ ik.tasks[i].prio = "scaled"
NX == NV + (IF Scaling THEN 1 ELSE 0)
Wide(A, s) == IF Scaling THEN [i \in 1..Len(A) |-> Append(A[i], s[i])] ELSE A
Wide0(A) == Wide(A, VZero(Len(A)))
Eq(A, b, hard, w) == [A |-> A, b |-> b, ineq |-> FALSE, hard |-> hard, w |-> w]
Ineq(A, b, hard, w) == [A |-> A, b |-> b, ineq |-> TRUE, hard |-> hard, w |-> w]
TaskRows(t) ==
  LET R == TLCEval(TaskRel(t)) IN
  CASE t.prio = "scaled" -> Eq(Wide(R.A, VScale(-1, R.b)), VZero(Len(R.b)), TRUE, t.w)
    [] OTHER -> Eq(Wide0(R.A), VScale(-1, R.b), t.prio = "hard", t.w)
\* the kinetic energy as soft rows: a square root of the mass matrix, given (and checked) by the trace
ScaleRows == IF Scaling THEN <<Ineq(<<ERow(NX, NX, 1)>>, <<0>>, TRUE, 1), Ineq(<<ERow(NX, NX, -1)>>, <<1>>, TRUE, 1),
                               Eq(<<ERow(NX, NX, 1)>>, <<-1>>, FALSE, 1)>> ELSE <<>>
MaskRows == LET S == {6 + j : j \in ik.masked} \cup (IF ik.fbase THEN 1..6 ELSE {})
                L == SelectSeq([i \in 1..NV |-> i], LAMBDA i : i \in S)
            IN IF L = <<>> THEN <<>> ELSE <<Eq([k \in 1..Len(L) |-> ERow(NX, L[k], 1)], VZero(Len(L)), TRUE, 1)>>
Bounded(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : NLt(NAbs(s[i]), "1e300"))
LimitRows ==
  (IF ik.jl THEN LET h == Bounded(lim.hi)  g == Bounded(lim.lo) IN
     <<Ineq([k \in 1..Len(h) |-> ERow(NX, 6 + h[k], -1)], [k \in 1..Len(h) |-> NSub(lim.hi[h[k]], conf.q[h[k]])], TRUE, 1),
       Ineq([k \in 1..Len(g) |-> ERow(NX, 6 + g[k], 1)], [k \in 1..Len(g) |-> NSub(conf.q[g[k]], lim.lo[g[k]])], TRUE, 1)>>
   ELSE <<>>)
  \o (IF ik.vl THEN LET n == NJ - 1 IN
     <<Ineq([k \in 1..n |-> ERow(NX, 6 + k, -1)], VScale(ik.dt, lim.vmax), TRUE, 1),
       Ineq([k \in 1..n |-> ERow(NX, 6 + k, 1)], VScale(ik.dt, lim.vmax), TRUE, 1)>>
   ELSE <<>>)
ConRows(c) == LET R == TLCEval(ConRel(c)) IN Ineq(Wide0(R.A), R.b, c.prio = "hard", c.w)
ProgramOf(tasks, constraints) ==
  [i \in 1..Len(tasks) |-> TaskRows(ik.tasks[tasks[i]])] \o ScaleRows \o MaskRows \o LimitRows
  \o [i \in 1..Len(constraints) |-> ConRows(ik.cons[constraints[i]])]
Program == ProgramOf(InTasks, InCons)
Regularization == "1e-8"

----------------------------------------------------------------------------
\* Transitions
IKInit(r) == [dt |-> "0.0", jl |-> TRUE, vl |-> FALSE, masked |-> {}, fbase |-> FALSE, scale |-> "0.0", tasks |-> <<>>, cons |-> <<>>]
Merge(t, ch) == [f \in DOMAIN t \cup DOMAIN ch |-> IF f \in DOMAIN ch THEN ch[f] ELSE t[f]]
Fresh(t) == Merge(t, [in |-> TRUE, prio |-> "soft", w |-> 1])
SetIK(x) == ik' = x /\ UNCHANGED robotVars
AddTask(t) == SetIK([ik EXCEPT !.tasks = Append(@, Fresh(t))])
SetTask(i, ch) == SetIK([ik EXCEPT !.tasks = [@ EXCEPT ![i] = Merge(@, ch)]])
AddCon(c) == SetIK([ik EXCEPT !.cons = Append(@, Fresh(c))])
SetCon(i, ch) == SetIK([ik EXCEPT !.cons = [@ EXCEPT ![i] = Merge(@, ch)]])
ClearAll == SetIK([ik EXCEPT !.tasks = [i \in 1..Len(@) |-> Merge(@[i], [in |-> FALSE])], !.cons = [i \in 1..Len(@) |-> Merge(@[i], [in |-> FALSE])]])
\* gears of a task: set_gear forgets the other sources of the target, add_gear does not
PutGear(gears, j, s, r, keep) ==
  LET has == {k \in 1..Len(gears) : gears[k].j = j}
      put(src) == LET hs == {k \in 1..Len(src) : src[k].j = s} IN
                  IF hs = {} THEN Append(src, [j |-> s, r |-> r]) ELSE [k \in 1..Len(src) |-> IF k \in hs THEN [j |-> s, r |-> r] ELSE src[k]]
  IN IF has = {} THEN Append(gears, [j |-> j, src |-> <<[j |-> s, r |-> r]>>])
     ELSE [k \in 1..Len(gears) |-> IF k \in has THEN [j |-> j, src |-> IF keep THEN put(gears[k].src) ELSE <<[j |-> s, r |-> r]>>] ELSE gears[k]]
PutJoint(joints, j, x) ==
  IF \E k \in 1..Len(joints) : joints[k].j = j THEN [k \in 1..Len(joints) |-> IF joints[k].j = j THEN [j |-> j, x |-> x] ELSE joints[k]]
  ELSE Append(joints, [j |-> j, x |-> x])

\* applying a displacement: the configuration moves along it; with a time step, velocities and accelerations follow
Moved(dq) ==
  LET c == TLCEval(Integrated(conf, dq, 1))
  IN IF NLt(0, ik.dt) THEN LET v == VScale(NDiv("1.0", ik.dt), dq) IN [c EXCEPT !.v = v, !.a = VScale(NDiv("1.0", ik.dt), VSub(v, conf.v))]
     ELSE c
SolveOk(dq, s, apply) ==
  /\ ik' = [ik EXCEPT !.scale = IF Scaling THEN s ELSE @]
  /\ conf' = (IF apply THEN Moved(dq) ELSE conf) /\ UNCHANGED <<rob, lim, kin>>
SolveFailed == UNCHANGED <<robotVars, ik>>
=============================================================================
