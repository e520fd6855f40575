---------------------------------- MODULE ID ----------------------------------
(***************************************************************************)
(* The inverse dynamics solver (src/placo/dynamics): tasks ask for         *)
(* accelerations (or torques), contacts bring forces, and the solution is  *)
(* accelerations, torques and forces satisfying the equation of motion     *)
(*     M qdd + h + damping v + extra = tau + sum of J_c^T f_c              *)
(* with no torque on the floating base (unless it is masked, in which case *)
(* it does not accelerate), within the limits, the conditions of the       *)
(* contacts and the hard tasks, and optimal for the soft ones.             *)
(***************************************************************************)
EXTENDS Robot, KKT, FiniteSets

VARIABLE id   \* [dt, damping, gonly, extra, cost, tl, vl, jl, vtl, fbase, safe, tlim, tasks, contacts, cons]

IEye3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
IRow(n, i, x) == [j \in 1..n |-> IF j = i THEN x ELSE 0]
IMasked(m, Rlocal, M) ==
  LET X == IF m.frame = "local" THEN MM(Rlocal, M) ELSE IF m.frame = "custom" THEN MM(m.R, M) ELSE M
  IN [k \in 1..Len(m.axes) |-> X[m.axes[k]]]
IMaskedV(m, Rlocal, v) == LET X == IMasked(m, Rlocal, [i \in 1..3 |-> <<v[i]>>]) IN [k \in 1..Len(X) |-> X[k][1]]
Gain(t) == IF NLt(t.kd, 0) THEN NMul(2, NSqrt(t.kp)) ELSE t.kd

\* ---- tasks: the acceleration J qdd + (dJ/dt) v of a quantity is  kp error + kd d(error)/dt + target acceleration
\* jacobian of the quantity in kinematics K
PosJac(K, f) == Lin(FrameJac(K, f, "lwa"))
RotJac(K, f) == Ang(FrameJac(K, f, "lwa"))
RelPosJac(K, f, g) == LET pb == FPos(FrameIn(K, g)) IN
  MM(MT(FRot(FrameIn(K, f))), MAdd(Lin(JacAt(K, rob.frames[g].joint, pb)), MScale(-1, Lin(JacAt(K, rob.frames[f].joint, pb)))))
\* A: jacobian, drift: (dJ/dt) v, e and de: errors of position and velocity, dd: target acceleration
Model3(J(_), e, target_v, dd) ==
  LET A == TLCEval(J(kin))
      Jd == TLCEval(Derivative(J, conf, conf.v))
  IN [A |-> A, drift |-> MV(Jd, conf.v), e |-> e, de |-> VSub(target_v, MV(A, conf.v)), dd |-> dd]
Finish(t, m, Rlocal) ==
  LET b == VSub(VAdd(VAdd(VScale(t.kp, m.e), VScale(Gain(t), m.de)), m.dd), m.drift)
  IN [A |-> IMasked(t.mask, Rlocal, m.A), b |-> IMaskedV(t.mask, Rlocal, b), e |-> IMaskedV(t.mask, Rlocal, m.e), de |-> IMaskedV(t.mask, Rlocal, m.de)]
IDTask(t) ==
  CASE t.type = "position" ->
         LET T == TLCEval(FrameIn(kin, t.f)) IN
         Finish(t, Model3(LAMBDA K : PosJac(K, t.f), VSub(t.x, FPos(T)), t.dx, t.ddx), MT(FRot(T)))
    [] t.type = "orientation" ->
         Finish(t, Model3(LAMBDA K : RotJac(K, t.f), RotLog(MM(t.R, MT(FRot(FrameIn(kin, t.f))))), t.dx, t.ddx), MT(t.R))
    [] t.type = "com" -> Finish(t, Model3(ComJac, VSub(t.x, Com(kin)), t.dx, t.ddx), IEye3)
    [] t.type = "relative_position" ->
         Finish(t, Model3(LAMBDA K : RelPosJac(K, t.f, t.g), VSub(t.x, FPos(Relative(kin, t.f, t.g))), t.dx, t.ddx), IEye3)
    [] t.type = "relative_orientation" ->    \* in the axes of the world, targets being given in frame a
         LET Ra == TLCEval(FRot(FrameIn(kin, t.f))) IN
         Finish(t, Model3(LAMBDA K : MAdd(RotJac(K, t.g), MScale(-1, RotJac(K, t.f))),
                          MV(Ra, RotLog(MM(t.R, MT(FRot(Relative(kin, t.f, t.g)))))), MV(Ra, t.dx), MV(Ra, t.ddx)), IEye3)
    [] t.type = "joints" ->       \* joints: sequence of [j, x, dx, ddx]
         LET n == Len(t.joints)
             e == [k \in 1..n |-> NSub(t.joints[k].x, conf.q[t.joints[k].j])]
             de == [k \in 1..n |-> NSub(t.joints[k].dx, conf.v[6 + t.joints[k].j])]
         IN [A |-> [k \in 1..n |-> IRow(NV, 6 + t.joints[k].j, 1)],
             b |-> [k \in 1..n |-> NAdd(NAdd(NMul(t.kp, e[k]), NMul(Gain(t), de[k])), t.joints[k].ddx)], e |-> e, de |-> de]
    [] t.type = "gear" ->         \* q_j = sum of r q_src
         LET Row(g) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN IRow(NV, 6 + g.j, 1) ELSE VSub(S(k - 1), IRow(NV, 6 + g.src[k].j, g.src[k].r)) IN S(Len(g.src))
             A == [k \in 1..Len(t.gears) |-> Row(t.gears[k])]
             e == VScale(-1, MV(A, VZero(6) \o conf.q))
             de == VScale(-1, MV(A, conf.v))
         IN [A |-> A, b |-> VAdd(VScale(t.kp, e), VScale(Gain(t), de)), e |-> e, de |-> de]
    [] t.type = "torque" ->       \* rows over the torques; joints: sequence of [j, x, kd]
         LET n == Len(t.joints) IN
         [A |-> [k \in 1..n |-> IRow(NV, 6 + t.joints[k].j, 1)],
          b |-> [k \in 1..n |-> NSub(t.joints[k].x, NMul(t.joints[k].kd, conf.v[6 + t.joints[k].j]))], e |-> VZero(n), de |-> VZero(n)]

\* ---- contacts: f_c acts through J_c^T
ContactJac(c) ==
  CASE c.type = "point" -> PosJac(kin, id.tasks[c.pos].f)
    [] c.type = "6d" -> FrameJac(kin, id.tasks[c.pos].f, "local")
    [] c.type = "line" -> LET o == id.tasks[c.ori] IN PosJac(kin, id.tasks[c.pos].f) \o IMasked(o.mask, MT(o.R), RotJac(kin, o.f))
    [] c.type = "external" -> FrameJac(kin, c.f, c.ref)
    [] c.type = "puppet" -> MId(NV)
    [] c.type = "task" -> IDTask(id.tasks[c.pos]).A
ContactSize(c) == CASE c.type = "point" -> 3 [] c.type = "6d" -> 6 [] c.type = "line" -> 5 [] c.type = "external" -> 6 [] c.type = "puppet" -> NV
                    [] c.type = "task" -> Len(ContactJac(c))
IneqB(A) == [A |-> A, b |-> VZero(Len(A)), ineq |-> TRUE, hard |-> TRUE, w |-> 1]
SoftB(A, w) == [A |-> A, b |-> VZero(Len(A)), ineq |-> FALSE, hard |-> FALSE, w |-> w]
\* conditions and costs over the force of the contact (n components)
Pad(A, n) == [i \in 1..Len(A) |-> A[i] \o VZero(n - Len(A[i]))]
Cone(S, mu) ==    \* S: rows giving the tangential and normal components
  <<S[3], VSub(VScale(mu, S[3]), S[1]), VAdd(VScale(mu, S[3]), S[1]), VSub(VScale(mu, S[3]), S[2]), VAdd(VScale(mu, S[3]), S[2])>>
Between(z, h, m) == <<VSub(VScale(h, z), m), VAdd(VScale(h, z), m)>>      \* |m| <= h z
Opt(w, block) == IF NLt(0, w) THEN <<block>> ELSE <<>>
ContactBlocks(c) ==
  CASE c.type = "point" ->
         LET S == MT(c.R) IN
         (IF c.uni THEN <<IneqB(Cone(S, c.mu))>> ELSE <<>>) \o Opt(c.wf, SoftB(MId(3), c.wf)) \o Opt(c.wt, SoftB(SubSeq(S, 1, 2), c.wt))
    [] c.type = "6d" ->
         LET E == MId(6)  h == NMul("0.5", c.length)  w == NMul("0.5", c.width) IN
         (IF c.uni THEN <<IneqB(Cone(E, c.mu) \o Between(E[3], h, E[5]) \o Between(E[3], w, E[4]))>> ELSE <<>>)
         \o Opt(c.wf, SoftB(SubSeq(E, 1, 3), c.wf)) \o Opt(c.wt, SoftB(SubSeq(E, 1, 2), c.wt)) \o Opt(c.wm, SoftB(SubSeq(E, 4, 6), c.wm))
    [] c.type = "line" ->
         LET S == Pad(MT(c.R), 5)  E == MId(5)  h == NMul("0.5", c.length) IN
         (IF c.uni THEN <<IneqB(Cone(S, c.mu) \o Between(S[3], h, E[4]))>> ELSE <<>>)
         \o Opt(c.wf, SoftB(S, c.wf)) \o Opt(c.wt, SoftB(SubSeq(S, 1, 2), c.wt)) \o Opt(c.wm, SoftB(SubSeq(E, 4, 5), c.wm))
    [] c.type = "external" -> <<[A |-> MId(6), b |-> VScale(-1, c.wrench), ineq |-> FALSE, hard |-> TRUE, w |-> 1]>>
    [] OTHER -> Opt(c.wf, SoftB(MId(ContactSize(c)), c.wf))

----------------------------------------------------------------------------
\* ---- the program, over the accelerations then the forces of the active contacts
Active == SelectSeq([i \in 1..Len(id.contacts) |-> i], LAMBDA i : id.contacts[i].in /\ id.contacts[i].active)
IDTasks == SelectSeq([i \in 1..Len(id.tasks) |-> i], LAMBDA i : id.tasks[i].in)
IDCons == SelectSeq([i \in 1..Len(id.cons) |-> i], LAMBDA i : id.cons[i].in)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))
Sizes == [i \in 1..Len(Active) |-> ContactSize(id.contacts[Active[i]])]
RECURSIVE SumInt(_, _)
SumInt(s, n) == IF n = 0 THEN 0 ELSE SumInt(s, n - 1) + s[n]
Drift == VAdd(VAdd(IF id.gonly THEN GravityForces(kin) ELSE Bias(conf), VScale(id.damping, conf.v)), IF id.extra = <<>> THEN VZero(NV) ELSE id.extra)
\* tau = A x + b
TauOf(M, h, Js) ==
  LET N == MT(Concat([i \in 1..Len(Js) |-> Js[i]])) IN
  [A |-> [r \in 1..NV |-> M[r] \o (IF Js = <<>> THEN <<>> ELSE VScale(-1, N[r]))], b |-> h]
Widen(B, off, nx) == [B EXCEPT !.A = [i \in 1..Len(B.A) |-> VZero(off) \o B.A[i] \o VZero(nx - off - Len(B.A[i]))]]

\* limits, as rows of inequalities; tau is given as [A, b]
Torque(j) == IF id.tlim[j] = "" THEN lim.tmax[j] ELSE id.tlim[j]
JointLimit(j, side, nx) ==    \* side 1: upper, -1: lower.  Beyond the limit, come back at the safe rate; before it, it must be possible to stop
  LET q == IF side = 1 THEN conf.q[j] ELSE NNeg(conf.q[j])
      v == IF side = 1 THEN conf.v[6 + j] ELSE NNeg(conf.v[6 + j])
      hi == IF side = 1 THEN lim.hi[j] ELSE NNeg(lim.lo[j])
  IN IF NLt(hi, q) THEN [row |-> IRow(nx, 6 + j, -side), b |-> NNeg(id.safe[j])]
     ELSE [row |-> IRow(nx, 6 + j, NMul(NNeg(id.dt), side)), b |-> NSub(NSqrt(NMul(2, NMul(NSub(hi, q), id.safe[j]))), v)]
IDLimitRows(tau, nx) ==
  LET n == NJ - 1
      R(A, b) == [A |-> A, b |-> b, ineq |-> TRUE, hard |-> TRUE, w |-> 1]
      Tm == [j \in 1..n |-> Torque(j)]
      At(j) == tau.A[6 + j]
      bt(j) == tau.b[6 + j]
      up == SelectSeq([j \in 1..n |-> j], LAMBDA j : NLt(NAbs(lim.hi[j]), "1e300"))
      dn == SelectSeq([j \in 1..n |-> j], LAMBDA j : NLt(NAbs(lim.lo[j]), "1e300"))
      ratio(j) == NDiv(lim.vmax[j], lim.tmax[j])
  IN (IF id.tl THEN <<R([j \in 1..n |-> VScale(-1, At(j))], [j \in 1..n |-> NSub(Tm[j], bt(j))]),
                      R([j \in 1..n |-> At(j)], [j \in 1..n |-> NAdd(Tm[j], bt(j))])>> ELSE <<>>)
     \o (IF id.vtl THEN <<R([j \in 1..n |-> VScale(-1, VAdd(IRow(nx, 6 + j, id.dt), VScale(ratio(j), At(j))))],
                            [j \in 1..n |-> NSub(NSub(lim.vmax[j], conf.v[6 + j]), NMul(ratio(j), bt(j)))]),
                          R([j \in 1..n |-> VAdd(IRow(nx, 6 + j, id.dt), VScale(ratio(j), At(j)))],
                            [j \in 1..n |-> NAdd(NAdd(lim.vmax[j], conf.v[6 + j]), NMul(ratio(j), bt(j)))])>>
         ELSE IF id.vl THEN <<R([j \in 1..n |-> IRow(nx, 6 + j, NNeg(id.dt))], [j \in 1..n |-> NSub(lim.vmax[j], conf.v[6 + j])]),
                              R([j \in 1..n |-> IRow(nx, 6 + j, id.dt)], [j \in 1..n |-> NAdd(lim.vmax[j], conf.v[6 + j])])>> ELSE <<>>)
     \o (IF id.jl THEN <<R([k \in 1..Len(up) |-> JointLimit(up[k], 1, nx).row], [k \in 1..Len(up) |-> JointLimit(up[k], 1, nx).b]),
                         R([k \in 1..Len(dn) |-> JointLimit(dn[k], -1, nx).row], [k \in 1..Len(dn) |-> JointLimit(dn[k], -1, nx).b])>> ELSE <<>>)

\* avoiding collisions between spheres objs: [joint, c, r]; pairs: <<a, b>> (specified for velocities without rotation)
CollisionRows(c, nx) ==
  LET C(i) == Apply(kin.oM[c.objs[i].joint], c.objs[i].c)
      Gap(k) == NSub(VNorm(VSub(C(c.pairs[k][2]), C(c.pairs[k][1]))), NAdd(c.objs[c.pairs[k][1]].r, c.objs[c.pairs[k][2]].r))
      near == SelectSeq([k \in 1..Len(c.pairs) |-> k], LAMBDA k : NLt(Gap(k), c.trigger))
      U(K, k) == LET a == c.pairs[k][1]  b == c.pairs[k][2]
                     n == LET d == VSub(C(b), C(a)) IN VScale(NDiv("1.0", VNorm(d)), d)
                 IN MTV(MAdd(Lin(JacAt(K, c.objs[b].joint, Apply(K.oM[c.objs[b].joint], c.objs[b].c))),
                             MScale(-1, Lin(JacAt(K, c.objs[a].joint, Apply(K.oM[c.objs[a].joint], c.objs[a].c))))), n, NV)
      Safe(J) == NMul("0.5", VSum([j \in 1..(NJ - 1) |-> NMul(NAbs(J[6 + j]), id.safe[j])]))
      One(k) == LET J == TLCEval(U(kin, k)) IN
        IF NLe(c.margin, Gap(k)) THEN [row |-> VScale(id.dt, J), b |-> NAdd(VDot(J, conf.v), NSqrt(NMul(2, NMul(NSub(Gap(k), c.margin), Safe(J)))))]
        ELSE [row |-> J, b |-> NNeg(Safe(J))]
  IN [A |-> [i \in 1..Len(near) |-> One(near[i]).row \o VZero(nx - NV)], b |-> [i \in 1..Len(near) |-> One(near[i]).b], ineq |-> TRUE, hard |-> c.prio = "hard", w |-> c.w]

TaskBlock(t, tau, nx) ==
  LET r == TLCEval(IDTask(t)) IN
  IF t.type = "torque" THEN [A |-> MM(r.A, tau.A), b |-> VSub(MV(r.A, tau.b), r.b), ineq |-> FALSE, hard |-> t.prio = "hard", w |-> t.w]
  ELSE [A |-> [i \in 1..Len(r.A) |-> r.A[i] \o VZero(nx - NV)], b |-> VScale(-1, r.b), ineq |-> FALSE, hard |-> t.prio = "hard", w |-> t.w]
NonEmpty(s) == SelectSeq(s, LAMBDA B : Len(B.A) > 0)
Parts(tau, sizes) ==
  LET nx == NV + SumInt(sizes, Len(sizes))
      E == MId(nx)
      BaseTau == [A |-> SubSeq(tau.A, 1, 6), b |-> SubSeq(tau.b, 1, 6), ineq |-> FALSE, hard |-> TRUE, w |-> 1]
      BaseAcc == [A |-> SubSeq(E, 1, 6), b |-> VZero(6), ineq |-> FALSE, hard |-> TRUE, w |-> 1]
  IN [base |-> <<IF id.fbase THEN BaseAcc ELSE BaseTau>>,
      contacts |-> Concat([i \in 1..Len(Active) |-> LET B == ContactBlocks(id.contacts[Active[i]]) IN
                             [k \in 1..Len(B) |-> Widen(B[k], NV + SumInt(sizes, i - 1), nx)]]),
      limits |-> IDLimitRows(tau, nx),
      tasks |-> NonEmpty([i \in 1..Len(IDTasks) |-> TLCEval(TaskBlock(id.tasks[IDTasks[i]], tau, nx))]),
      cons |-> NonEmpty([i \in 1..Len(IDCons) |-> CollisionRows(id.cons[IDCons[i]], nx)]),
      cost |-> <<[A |-> SubSeq(tau.A, 7, NV), b |-> SubSeq(tau.b, 7, NV), ineq |-> FALSE, hard |-> FALSE, w |-> id.cost]>>]
All(p) == p.base \o p.contacts \o p.limits \o p.tasks \o p.cons \o p.cost

----------------------------------------------------------------------------
\* Transitions
IDInit(n) == [dt |-> "0.0", damping |-> 0, gonly |-> FALSE, extra |-> <<>>, cost |-> "1e-3", tl |-> FALSE, vl |-> FALSE, jl |-> FALSE, vtl |-> FALSE,
              fbase |-> FALSE, safe |-> [j \in 1..n |-> 1], tlim |-> [j \in 1..n |-> ""], tasks |-> <<>>, contacts |-> <<>>, cons |-> <<>>]
MergeR(t, ch) == [f \in DOMAIN t \cup DOMAIN ch |-> IF f \in DOMAIN ch THEN ch[f] ELSE t[f]]
SetID(x) == id' = x /\ UNCHANGED robotVars
\* tasks: soft of weight 1, gains 1000 and critical damping; contacts: active, friction 1, no cost
NewTask(t) == MergeR(t, [in |-> TRUE, prio |-> "soft", w |-> 1, kp |-> 1000, kd |-> -1])
NewContact(c) == MergeR([R |-> IEye3, mu |-> 1, wf |-> 0, wt |-> 0, wm |-> 0, length |-> 0, width |-> 0, wrench |-> VZero(6)], MergeR(c, [in |-> TRUE, active |-> TRUE]))
\* applying accelerations for dt
IDMoved(qdd, dt) == LET a == IF id.fbase THEN VZero(6) \o SubSeq(qdd, 7, NV) ELSE qdd
                        v == VAdd(conf.v, VScale(dt, a))
                    IN Integrated([conf EXCEPT !.v = v, !.a = a], v, dt)
=============================================================================
