-------------------------------- MODULE Wpg --------------------------------
(***************************************************************************)
(* The walk pattern generator: from supports to a trajectory of the feet,  *)
(* of the trunk and of the centre of mass, which can be queried at any     *)
(* time, transformed, and replanned while it is followed.                  *)
(*                                                                         *)
(* gen is the generator (pendulum frequency squared, soft constraints and  *)
(* their weights); traj the current trajectory:                            *)
(*   [t0, te, z, pitch, T, ok, parts, yaw]                                 *)
(* parts: one per support, [sup, ts, te, dt, n, x, y, ux, uy, swing] where *)
(* x and y are the successive (pos, vel, acc) of the centre of mass at the *)
(* n + 1 planning steps, ux and uy the constant jerks in between, and      *)
(* swing the knots of the flying foot.  yaw: the knots of the yaw of each  *)
(* foot and of the trunk.                                                  *)
(***************************************************************************)
EXTENDS Walk, KKT
LOCAL INSTANCE TLC
VARIABLES gen, traj
wpgVars == <<walkVars, gen, traj>>
C == INSTANCE Curves WITH knots <- <<>>, angular <- FALSE, swing <- <<>>
ArcAt(h, xa, va, xb, vb, s, d) == C!ArcAt(h, xa, va, xb, vb, s, d)

\* the only element of a set: binding a variable to it evaluates an expression once
The(S) == CHOOSE x \in S : TRUE

\* ---- splines through knots [t, x, dx]
KClamp(ks, t) == NMin(NMax(t, ks[1].t), ks[Len(ks)].t)
KnotAt(ks, t, d) ==
  LET u == TLCEval(KClamp(ks, t)) IN
  IF Len(ks) = 1 THEN (IF d = 0 THEN ks[1].x ELSE ks[1].dx)
  ELSE LET i == CHOOSE i \in 1..(Len(ks) - 1) : NLe(ks[i].t, u) /\ NLe(u, ks[i + 1].t)
           a == ks[i]  b == ks[i + 1]
       IN ArcAt(NSub(b.t, a.t), a.x, a.dx, b.x, b.dx, NSub(u, a.t), d)
Knot(t, x, dx) == [t |-> t, x |-> x, dx |-> dx]
AngleKnots(ks, k) == IF ks = <<>> THEN <<k>> ELSE Append(ks, [k EXCEPT !.x = LET p == ks[Len(ks)].x IN NAdd(p, NWrap(NSub(@, p)))])

\* ---- centre of mass: constant jerk during each planning step
Step(X, u, h) == <<NAdd(NAdd(NAdd(X[1], NMul(h, X[2])), NMul(NDiv(NMul(h, h), "2.0"), X[3])), NMul(NDiv(NMul(NMul(h, h), h), "6.0"), u)),
                   NAdd(NAdd(X[2], NMul(h, X[3])), NMul(NDiv(NMul(h, h), "2.0"), u)), NAdd(X[3], NMul(h, u))>>
RECURSIVE Run(_, _, _, _)
\* states from X under the jerks us[k..]
Run(X, us, h, k) == IF k > Len(us) THEN <<X>> ELSE The({<<X>> \o Run(Y, us, h, k + 1) : Y \in {Step(X, us[k], h)}})

PlanSteps(s) == LET n == NFloor(NMul(NSub(1, s.el), PhaseSteps(s))) IN IF n < 1 THEN 1 ELSE n
\* a whole phase lasts Whole; what remains of it when planning starts lasts Remaining
Whole(s) == NMul(PhaseDuration(s), s.tr)
Remaining(s) == NMul(NSub(1, s.el), Whole(s))
RECURSIVE Starts(_, _, _)
Starts(ss, t, k) == IF k > Len(ss) THEN <<t>> ELSE <<t>> \o Starts(ss, TLCEval(NAdd(t, Remaining(ss[k]))), k + 1)

\* linear maps giving (pos, vel, acc) after each planning step from (jerks, initial state): 3 x (N + 3)
RECURSIVE SumSteps(_, _)
SumSteps(ss, k) == IF k = 0 THEN 0 ELSE SumSteps(ss, k - 1) + PlanSteps(ss[k])
PartOfStep(ss, m) == CHOOSE k \in 1..Len(ss) : SumSteps(ss, k - 1) < m /\ m <= SumSteps(ss, k)
AMat(h) == <<<<1, h, NDiv(NMul(h, h), "2.0")>>, <<0, 1, h>>, <<0, 0, 1>>>>
BVec(h) == <<NDiv(NMul(NMul(h, h), h), "6.0"), NDiv(NMul(h, h), "2.0"), h>>
NextMap(h, M, m) == The({[i \in 1..3 |-> [P[i] EXCEPT ![m] = NAdd(@, BVec(h)[i])]] : P \in {MM(AMat(h), M)}})
RECURSIVE Maps(_, _, _, _)
Maps(dts, M, m, N) ==
  IF m > N THEN <<>>
  ELSE The({<<Q>> \o Maps(dts, Q, m + 1, N) : Q \in {NextMap(dts[m], M, m)}})
Map0(N) == [i \in 1..3 |-> [j \in 1..(N + 3) |-> IF j = N + i THEN 1 ELSE 0]]

\* rows of the program: direction <<a, b>> of the plane applied to the line r (of length N + 3) of the maps
RowA(r, a, b, N) == VScale(a, SubSeq(r, 1, N)) \o VScale(b, SubSeq(r, 1, N))
RowB(r, a, b, N, X0, Y0) == NAdd(NMul(a, VDot(SubSeq(r, N + 1, N + 3), X0)), NMul(b, VDot(SubSeq(r, N + 1, N + 3), Y0)))
ZmpTarget(s) ==
  LET o == IF IsBoth(s) THEN <<0, 0>> ELSE <<par.foot_zmp_target_x, NMul(NMul(-1, Toward(s.feet[1].side)), par.foot_zmp_target_y)>>
      p == MV(SupportT(s), <<o[1], o[2], 0, 1>>)
  IN <<p[1], p[2]>>
\* inner normal and distance of the edges of a clockwise polygon
Edge(poly, k) == LET a == poly[k]  b == poly[Nxt(k, Len(poly))]
                     n == <<NSub(b[2], a[2]), NSub(a[1], b[1])>>
                     u == VScale(NDiv("1.0", VNorm(n)), n)
                 IN [n |-> u, d |-> VDot(u, a)]
Edges(poly) == TLCEval([k \in 1..Len(poly) |-> TLCEval(Edge(poly, k))])
Con(A, b, ineq, hard, w) == [A |-> A, b |-> b, ineq |-> ineq, hard |-> hard, w |-> w]
\* the zero moment point stays in the support (with a margin), close to its target; the walk ends at rest over its last support
ZmpCon(z, edges, N, X0, Y0) ==
  Con(TLCEval([k \in 1..Len(edges) |-> RowA(z, edges[k].n[1], edges[k].n[2], N)]),
      TLCEval([k \in 1..Len(edges) |-> NSub(RowB(z, edges[k].n[1], edges[k].n[2], N, X0, Y0), NAdd(edges[k].d, par.zmp_margin))]),
      TRUE, ~gen.soft, gen.wz)
RefCon(z, g, N, X0, Y0) ==
  Con(TLCEval(<<RowA(z, 1, 0, N), RowA(z, 0, 1, N)>>), TLCEval(<<NSub(RowB(z, 1, 0, N, X0, Y0), g[1]), NSub(RowB(z, 0, 1, N, X0, Y0), g[2])>>),
      FALSE, FALSE, par.zmp_reference_weight)
StopCon(M, c, N, X0, Y0) ==
  LET A == [k \in 1..6 |-> RowA(M[(k + 1) \div 2], IF k % 2 = 1 THEN 1 ELSE 0, IF k % 2 = 1 THEN 0 ELSE 1, N)]
      b == [k \in 1..6 |-> RowB(M[(k + 1) \div 2], IF k % 2 = 1 THEN 1 ELSE 0, IF k % 2 = 1 THEN 0 ELSE 1, N, X0, Y0)]
  IN Con(TLCEval(A), TLCEval([b EXCEPT ![1] = NSub(@, c[1]), ![2] = NSub(@, c[2])]), FALSE, ~gen.soft, gen.wstop)
RECURSIVE ConsFrom(_, _, _, _, _, _, _, _)
ConsFrom(ss, maps, polys, m, N, X0, Y0, targets) ==
  IF m > N THEN <<>>
  ELSE The({<<ZmpCon(z, polys[k], N, X0, Y0), RefCon(z, targets[k], N, X0, Y0)>>
             \o (IF ss[k].end /\ m = SumSteps(ss, k) THEN LET T == SupportT(ss[k]) IN <<StopCon(maps[m], <<T[1][4], T[2][4]>>, N, X0, Y0)>> ELSE <<>>)
             : z \in {VSub(maps[m][1], VScale(NDiv("1.0", gen.om2), maps[m][3]))}, k \in {PartOfStep(ss, m)}})
          \o ConsFrom(ss, maps, polys, m + 1, N, X0, Y0, targets)
\* polys: the hulls of the supports
StepDt(s) == NDiv(Remaining(s), PlanSteps(s))
StepDts(ss, N) == The({[m \in 1..N |-> D[PartOfStep(ss, m)]] : D \in {[k \in 1..Len(ss) |-> StepDt(ss[k])]}})
Program(ss, polys, X0, Y0) ==
  The({ConsFrom(ss, b.maps, b.edges, 1, b.N, X0, Y0, b.targets) : b \in
       UNION {{[N |-> N, maps |-> Maps(dts, Map0(N), 1, N), edges |-> [k \in 1..Len(polys) |-> Edges(polys[k])], targets |-> [k \in 1..Len(ss) |-> ZmpTarget(ss[k])]]
               : dts \in {StepDts(ss, N)}} : N \in {SumSteps(ss, Len(ss))}}})

\* ---- the trajectory of the given supports from t0, whose jerks are ux, uy (one sequence per support)
FootYaw(f) == Yaw(FRot(f.T))
FootIn(s, side) == \E i \in 1..Len(s.feet) : s.feet[i].side = side
Flying(s) == Other(s.feet[1].side)
\* where a foot is at the end of part k
Landing(ss, k, side) == IF FootIn(ss[k], side) THEN FootOf(ss[k], side) ELSE FootOf(ss[k + 1], side)
\* (ts, te) of the part; from: placement and velocity of the foot when it is already flying
SwingOf(ss, k, ts, te, from) ==
  LET side == Flying(ss[k])
      p == IF from = <<>> THEN FPos(FootOf(ss[k - 1], side).T) ELSE from.p
      v == IF from = <<>> THEN <<0, 0, 0>> ELSE from.v
      q == FPos(FootOf(ss[k + 1], side).T)
      W == Whole(ss[k])
      v0 == NSub(ts, NMul(ss[k].el, W))
      half == NDiv(W, "2.0")
      tops == IF NLt(0, par.walk_foot_rise_ratio)
              THEN <<NAdd(v0, NMul(half, NSub(1, par.walk_foot_rise_ratio))), NAdd(v0, NMul(half, NAdd(1, par.walk_foot_rise_ratio)))>>
              ELSE <<NAdd(v0, half)>>
      Ends(c, mid) == <<Knot(ts, p[c], v[c])>> \o mid \o <<Knot(te, q[c], 0)>>
      up == SelectSeq(tops, LAMBDA x : NLt(ts, x))
  IN [x |-> Ends(1, <<>>), y |-> Ends(2, <<>>), z |-> Ends(3, [i \in 1..Len(up) |-> Knot(up[i], par.walk_foot_height, 0)])]
RECURSIVE YawKnots(_, _, _, _, _)
YawKnots(ss, ts, side, ks, k) ==
  IF k > Len(ss) THEN ks ELSE YawKnots(ss, ts, side, TLCEval(AngleKnots(ks, Knot(ts[k + 1], FootYaw(Landing(ss, k, side)), 0))), k + 1)
RECURSIVE TrunkKnots(_, _, _, _)
TrunkKnots(ss, ts, ks, k) ==
  IF k > Len(ss) THEN ks
  ELSE LET next == IF IsBoth(ss[k]) THEN <<Knot(ts[k + 1], Yaw(FRot(SupportT(ss[k]))), 0)>>
                   ELSE IF ~HasDouble THEN <<Knot(ts[k + 1], FootYaw(FootOf(ss[k + 1], Flying(ss[k]))), 0)>> ELSE <<>>
       IN TrunkKnots(ss, ts, IF next = <<>> THEN ks ELSE TLCEval(AngleKnots(ks, next[1])), k + 1)
EndDcm(x, y) == LET om == NSqrt(gen.om2) IN <<NAdd(x[1], NDiv(x[2], om)), NAdd(y[1], NDiv(y[2], om))>>
PartOf(ss, ts, ux, uy, X, Y, from, k) ==
  The({[sup |-> [ss[k] EXCEPT !.t = IF NNearAbs(@, -1, "1e-12") THEN ts[k] ELSE @, !.dcm = EndDcm(xs[Len(xs)], ys[Len(ys)])],
        ts |-> ts[k], te |-> ts[k + 1], dt |-> h, n |-> Len(ux[k]), x |-> xs, y |-> ys, ux |-> ux[k], uy |-> uy[k], c0 |-> ts[k],
        swing |-> IF IsBoth(ss[k]) THEN <<>> ELSE SwingOf(ss, k, ts[k], ts[k + 1], IF k = 1 THEN from.swing ELSE <<>>)]
       : xs \in {Run(X, ux[k], NDiv(NSub(ts[k + 1], ts[k]), Len(ux[k])), 1)}, ys \in {Run(Y, uy[k], NDiv(NSub(ts[k + 1], ts[k]), Len(ux[k])), 1)},
         h \in {NDiv(NSub(ts[k + 1], ts[k]), Len(ux[k]))}})
RECURSIVE PartsFrom(_, _, _, _, _, _, _, _)
PartsFrom(ss, ts, ux, uy, X, Y, from, k) ==
  IF k > Len(ss) THEN <<>>
  ELSE The({<<P>> \o PartsFrom(ss, ts, ux, uy, P.x[Len(P.x)], P.y[Len(P.y)], from, k + 1) : P \in {PartOf(ss, ts, ux, uy, X, Y, from, k)}})
\* from: initial state of the centre of mass, and when replanning the yaws and the flying foot
Made(ss, t0, ux, uy, from) ==
  LET ts == TLCEval(Starts(ss, t0, 1))
      first(side) == IF side \in DOMAIN from.yaw THEN from.yaw[side] ELSE Knot(t0, FootYaw(FootOf(ss[1], side)), 0)
      trunk == IF "trunk" \in DOMAIN from.yaw THEN from.yaw["trunk"] ELSE Knot(t0, Yaw(FRot(SupportT(ss[1]))), 0)
      parts == TLCEval(PartsFrom(ss, ts, ux, uy, from.X, from.Y, from, 1))
  IN [t0 |-> t0, te |-> ts[Len(ts)], z |-> par.walk_com_height, pitch |-> par.walk_trunk_pitch, T |-> MId(4), ok |-> TRUE, parts |-> parts,
      yaw |-> [left |-> TLCEval(YawKnots(ss, ts, "left", <<first("left")>>, 1)), right |-> TLCEval(YawKnots(ss, ts, "right", <<first("right")>>, 1)),
               trunk |-> TLCEval(TrunkKnots(ss, ts, <<trunk>>, 1))]]
\* feet that fly must have left the floor (or be flying already) and must land
Lands(ss) == ss # <<>> /\ IsBoth(ss[Len(ss)])
CanPlan(ss) == Lands(ss) /\ IsBoth(ss[1])
CanReplanFrom(ss) == Lands(ss)

\* ---- queries
Parts == traj.parts
\* the parts a time can belong to: two of them when one ends
PartsAt(t) == LET N == Len(Parts)
                  I == {i \in 1..N : NLeAbs(Parts[i].ts, t, "1e-12") /\ NLeAbs(t, Parts[i].te, "1e-12")}
              IN IF I # {} THEN I ELSE IF NLt(t, Parts[1].ts) THEN {1} ELSE {N}
\* (pos, vel, acc, jerk) of one axis during a part
ComAxis(P, xs, us, t) ==
  LET u == TLCEval(NMin(NMax(t, P.c0), P.te))
      r == NFloor(NDiv(NSub(u, P.c0), P.dt))
      k == IF r < 0 THEN 0 ELSE IF r >= P.n THEN P.n - 1 ELSE r
  IN Append(Step(xs[k + 1], us[k + 1], NSub(u, NAdd(P.c0, NMul(k, P.dt)))), us[k + 1])
Com(i, t) == LET P == Parts[i]  x == TLCEval(ComAxis(P, P.x, P.ux, t))  y == TLCEval(ComAxis(P, P.y, P.uy, t)) IN
  [p |-> FPos(MM(traj.T, Frame(I3, <<x[1], y[1], traj.z>>))), v |-> MV(FRot(traj.T), <<x[2], y[2], 0>>), a |-> MV(FRot(traj.T), <<x[3], y[3], 0>>),
   j |-> MV(FRot(traj.T), <<x[4], y[4], 0>>)]
SwingAt(P, t, d) == <<KnotAt(P.swing.x, t, d), KnotAt(P.swing.y, t, d), KnotAt(P.swing.z, t, d)>>
IsFlying(i, side) == ~FootIn(Parts[i].sup, side)
FootT(i, side, t) == LET P == Parts[i] IN
  MM(traj.T, Frame(RotZ(KnotAt(traj.yaw[side], t, 0)), IF IsFlying(i, side) THEN SwingAt(P, t, 0) ELSE FPos(FootOf(P.sup, side).T)))
FootV(i, side, t) == IF IsFlying(i, side) THEN MV(FRot(traj.T), SwingAt(Parts[i], t, 1)) ELSE <<0, 0, 0>>
RotY(a) == <<<<NCos(a), 0, NSin(a)>>, <<0, 1, 0>>, <<NNeg(NSin(a)), 0, NCos(a)>>>>
TrunkR(t) == MM(FRot(traj.T), MM(RotZ(KnotAt(traj.yaw["trunk"], t, 0)), RotY(traj.pitch)))
InWorld(s) == [Moved(s, LAMBDA X : TLCEval(MM(traj.T, X))) EXCEPT !.dcm = LET p == MV(traj.T, <<@[1], @[2], 0, 1>>) IN <<p[1], p[2]>>]
SupAt(i, n) == LET k == i + n IN InWorld(Parts[IF k < 1 THEN 1 ELSE IF k > Len(Parts) THEN Len(Parts) ELSE k].sup)

\* ---- replanning
\* what the new trajectory starts from at time t, when its first support is s
Kept(s, t) ==
  LET i == CHOOSE i \in PartsAt(t) : TRUE
      c == TLCEval(Com(i, t))
      tz == TLCEval(Yaw(FRot(traj.T)))
      yaw(which) == Knot(t, NAdd(tz, KnotAt(traj.yaw[which], t, 0)), KnotAt(traj.yaw[which], t, 1))
      side == Flying(s)
      T == TLCEval(FootT(i, side, t))
  IN [X |-> <<c.p[1], c.v[1], c.a[1]>>, Y |-> <<c.p[2], c.v[2], c.a[2]>>,
      swing |-> IF IsBoth(s) THEN <<>> ELSE [p |-> FPos(T), v |-> TLCEval(FootV(i, side, t))],
      yaw |-> IF IsBoth(s) THEN [trunk |-> TLCEval(yaw("trunk"))]
              ELSE IF side = "left" THEN [trunk |-> TLCEval(yaw("trunk")), left |-> TLCEval(yaw("left"))]
              ELSE [trunk |-> TLCEval(yaw("trunk")), right |-> TLCEval(yaw("right"))]]
AtRest(com) == [X |-> <<com[1], 0, 0>>, Y |-> <<com[2], 0, 0>>, swing |-> <<>>, yaw |-> <<>>]
Elapsed(s, t, since) == NAdd(s.el, NDiv(NSub(t, NMax(since, s.t)), Whole(s)))
\* the end of the current trajectory, from t
Trimmed(t) ==
  LET keep == SelectSeq(Parts, LAMBDA P : NLt(t, P.te))
      cut == [i \in 1..Len(keep) |-> IF NLe(keep[i].ts, t) THEN [keep[i] EXCEPT !.ts = t, !.sup.el = Elapsed(keep[i].sup, t, traj.t0)] ELSE keep[i]]
  IN [traj EXCEPT !.t0 = t, !.ok = FALSE, !.parts = cut]
\* supports can be replanned during a single support that is followed by another step
CanReplan(i) == LET s == Parts[i].sup IN ~IsBoth(s) /\ ~s.start /\ ~s.end /\ ~Parts[IF i < Len(Parts) THEN i + 1 ELSE i].sup.end
\* fs: footsteps planned from the support foot and the landing one
ReplanSups(i, fs, t, since) ==
  LET s == InWorld(Parts[i].sup)
      ss == MakeSupports(fs, s.t, FALSE, HasDouble, TRUE)
  IN [ss EXCEPT ![1].el = Elapsed(s, t, since), ![1].tr = s.tr]

\* ---- reaction to the measured divergent component of motion (DCM)
\* the zero moment point that leads from one DCM to the other in d, or the closest one of the support
Closest(x, from, to, om, d) == LET e == NExp(NMul(om, d)) IN NDiv(NSub(to[x], NMul(from[x], e)), NSub(1, e))
ZmpProgram(s, poly, from, to, d) ==
  LET om == NSqrt(gen.om2)  E == Edges(poly)  I == MId(2) IN
  <<Con(I, <<NNeg(Closest(1, from, to, om, d)), NNeg(Closest(2, from, to, om, d))>>, FALSE, FALSE, 1),
    Con([k \in 1..Len(E) |-> E[k].n], [k \in 1..Len(E) |-> NNeg(NAdd(E[k].d, par.zmp_margin))], TRUE, TRUE, 1)>>
\* Variables: <<landing x, y (in the support frame), exp(om * end of the phase), offset x, y of the DCM>>
\* op: clockwise landing area of a right support, off: area of the offsets (both centrally symmetric for a left support)
Mirror(s) == IF s.feet[1].side = "right" THEN 1 ELSE -1
R2(s) == LET T == SupportT(s) IN <<<<T[1][1], T[1][2]>>, <<T[2][1], T[2][2]>>>>
P2(s) == LET T == SupportT(s) IN <<T[1][4], T[2][4]>>
Since(s, t) == NSub(t, s.t)
MinEnd == "0.15"
MaxEnd == 3
UpdateProgram(ss, t, dcm, zmp, op, off) ==
  LET s == ss[1]  om == NSqrt(gen.om2)  R == R2(s)  p == P2(s)  q == P2(ss[2])
      el == Since(s, t)
      PE == Edges([k \in 1..Len(op) |-> VScale(Mirror(s), op[k])])
      OE == Edges(off)
      g == TLCEval(VScale(NExp(NNeg(NMul(om, el))), VSub(dcm, zmp)))
      row(i, o) == IF o = 0 THEN <<R[i][1], R[i][2], 0, 0, 0>> ELSE <<0, 0, 0, R[i][1], R[i][2]>>
      both(i) == <<R[i][1], R[i][2], NNeg(g[i]), R[i][1], R[i][2]>>
      out == VSub(s.dcm, q)
  IN <<Con(<<<<0, 0, 1, 0, 0>>>>, <<NNeg(NExp(NMul(om, PhaseDuration(s))))>>, FALSE, FALSE, 5),
       Con(<<row(1, 0), row(2, 0)>>, VSub(p, q), FALSE, FALSE, 100),
       Con(<<row(1, 1), row(2, 1)>>, VScale(-1, out), FALSE, FALSE, 1000),
       Con(<<<<0, 0, 1, 0, 0>>>>, <<NNeg(NExp(NMul(om, NMax(MinEnd, el))))>>, TRUE, TRUE, 1),
       Con(<<<<0, 0, -1, 0, 0>>>>, <<NExp(NMul(om, NMax(MaxEnd, el)))>>, TRUE, TRUE, 1),
       Con([k \in 1..Len(PE) |-> <<PE[k].n[1], PE[k].n[2], 0, 0, 0>>], [k \in 1..Len(PE) |-> NNeg(PE[k].d)], TRUE, TRUE, 1),
       Con([k \in 1..Len(OE) |-> <<0, 0, 0, OE[k].n[1], OE[k].n[2]>>], [k \in 1..Len(OE) |-> NNeg(OE[k].d)], TRUE, FALSE, 1000000),
       Con(<<both(1), both(2)>>, VSub(p, zmp), FALSE, TRUE, 1)>>
\* what the new supports say: end of the phase, landing; the offset follows
UpdatedTau(s, t, tr) == LET om == NSqrt(gen.om2) IN NExp(NMul(om, NAdd(Since(s, t), NMul(NMul(tr, PhaseDuration(s)), NSub(1, s.el)))))
\* in a millisecond
Soonest(s, t) == NExp(NMul(NSqrt(gen.om2), NAdd(Since(s, t), "1e-3")))
UpdateVars(ss, t, dcm, zmp, tau, T) ==
  LET s == ss[1]  om == NSqrt(gen.om2)  Rt == TLCEval(MT(R2(s)))
      z == TLCEval(MV(Rt, VSub(<<T[1][4], T[2][4]>>, P2(s))))
      end == VAdd(VScale(NMul(tau, NExp(NNeg(NMul(om, Since(s, t))))), VSub(dcm, zmp)), zmp)
      o == TLCEval(MV(Rt, VSub(end, <<T[1][4], T[2][4]>>)))
  IN <<z[1], z[2], tau, o[1], o[2]>>

WpgInit == WalkInit /\ gen = <<>> /\ traj = <<>>
SetGen(g) == gen' = g /\ UNCHANGED <<walkVars, traj>>
SetTraj(x) == traj' = x /\ UNCHANGED <<walkVars, gen>>
Transform(T) == SetTraj([traj EXCEPT !.T = TLCEval(MM(T, @))])
=============================================================================
