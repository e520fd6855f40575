------------------------------ MODULE TraceRobot ------------------------------
EXTENDS Robot, TraceLib, FiniteSets

Tol == "1e-7"
TReset == IsEvent("Reset") /\ rob' = <<>> /\ conf' = <<>> /\ lim' = <<>> /\ kin' = <<>>
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED robotVars

Neutral(r) == LET n == Len(r.joints) - 1 IN [base |-> r.base0, q |-> VZero(n), v |-> VZero(n + 6), a |-> VZero(n + 6)]
TLoad ==
  /\ IsEvent("Load")
  /\ LET r == [joints |-> Ev.joints, bodies |-> Ev.bodies, frames |-> Ev.frames, g |-> <<0, 0, "-9.81">>, rotor |-> VZero(Len(Ev.joints) - 1), base0 |-> Ev.base0]
     IN /\ Load(r, Neutral(r), [lo |-> Ev.lo, hi |-> Ev.hi, vmax |-> Ev.vmax, tmax |-> Ev.tmax])
        /\ kin' = [oM |-> <<>>, v |-> <<>>]
  /\ Check("C10.names", /\ Ev.impl_joints = Ev.names
                        /\ Cardinality({Ev.impl_offsets[i] : i \in 1..Len(Ev.names)}) = Len(Ev.names)
                        /\ \A i \in 1..Len(Ev.names) : /\ Ev.impl_voffsets[i] = 5 + i /\ Ev.impl_offsets[i] = 6 + i
                                                       /\ Ev.impl_sizes[i] = 1 /\ Ev.impl_vsizes[i] = 1)
  /\ Check("C10.frames", \A i \in 1..Len(Ev.frame_names) : \E k \in 1..Len(Ev.impl_frames) : Ev.impl_frames[k] = Ev.frame_names[i])
  /\ Check("C10.limits", \A i \in 1..Len(Ev.names) : Ev.impl_lo[i] = Ev.lo[i] /\ Ev.impl_hi[i] = Ev.hi[i])
  /\ Check("C12.mass", NNear(Ev.mass, LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE NAdd(S(k - 1), Ev.bodies[k].m) IN S(Len(Ev.bodies)), Tol))

At(s, i, x) == [s EXCEPT ![i] = x]
TSetJoint == IsEvent("SetJoint") /\ SetConf([conf EXCEPT !.q = At(@, Ev.j, Ev.x)])
TSetVel == IsEvent("SetVel") /\ SetConf([conf EXCEPT !.v = At(@, 6 + Ev.j, Ev.x)])
TSetAcc == IsEvent("SetAcc") /\ SetConf([conf EXCEPT !.a = At(@, 6 + Ev.j, Ev.x)])
TSetV == IsEvent("SetV") /\ SetConf([conf EXCEPT !.v = Ev.v])
TSetA == IsEvent("SetA") /\ SetConf([conf EXCEPT !.a = Ev.a])
TGet == /\ IsEvent("Get") /\ UNCHANGED robotVars
        /\ Check("C10.get", NNear(Ev.q, conf.q[Ev.j], "1e-9") /\ NNear(Ev.v, conf.v[6 + Ev.j], "1e-9") /\ NNear(Ev.a, conf.a[6 + Ev.j], "1e-9"))
TState == /\ IsEvent("State") /\ UNCHANGED robotVars
          /\ Check("C10.state", /\ VNear(Ev.q, conf.q, Tol) /\ VNear(Ev.v, conf.v, Tol) /\ VNear(Ev.a, conf.a, Tol)
                                /\ NNear(VNorm(Ev.quat), 1, Tol))
          /\ Check("C10.base", MNear(Ev.base, conf.base, "1e-6"))
TUnknown == IsEvent("Unknown") /\ UNCHANGED robotVars /\ Check("C10.unknown", \A i \in 1..Len(Ev.ok) : ~Ev.ok[i])
TResetState == IsEvent("ResetState") /\ SetConf(Neutral(rob))
TNeutral == /\ IsEvent("Neutral") /\ UNCHANGED robotVars
            /\ Check("C10.neutral", LET c == Neutral(rob) IN /\ VNear(Ev.q, c.q, Tol) /\ VNear(Ev.v, c.v, Tol) /\ VNear(Ev.a, c.a, Tol)
                                                             /\ VNear(Ev.base, <<0, 0, 0, 0, 0, 0, 1>>, Tol))
TSetLimits == IsEvent("SetLimits") /\ SetLim([lim EXCEPT !.lo = At(@, Ev.j, Ev.lo), !.hi = At(@, Ev.j, Ev.hi)])
TSetMotors == IsEvent("SetMotors") /\ SetLim([lim EXCEPT !.vmax = Ev.vmax, !.tmax = Ev.tmax])
TLimits == IsEvent("Limits") /\ UNCHANGED robotVars /\ Check("C10.limits", \A i \in 1..Len(lim.lo) : Ev.lo[i] = lim.lo[i] /\ Ev.hi[i] = lim.hi[i])
TSetBase == IsEvent("SetBase") /\ SetConf([conf EXCEPT !.base = Ev.T])
TSetFrame == IsEvent("SetFrame") /\ SetConf([conf EXCEPT !.base = BaseFor(Ev.f, Ev.T)])
TUpdate == IsEvent("Update") /\ Update
TSetGravity == IsEvent("SetGravity") /\ rob' = [rob EXCEPT !.g = Ev.g] /\ UNCHANGED <<conf, lim, kin>>
TSetRotor == IsEvent("SetRotor") /\ rob' = [rob EXCEPT !.rotor = At(@, Ev.j, Ev.x)] /\ UNCHANGED <<conf, lim, kin>>
\* semi-implicit integration of the accelerations, then of the velocities
TIntegrate == /\ IsEvent("Integrate")
              /\ LET v2 == VAdd(conf.v, VScale(Ev.dt, conf.a)) IN SetConf(TLCEval(Integrated([conf EXCEPT !.v = v2], v2, Ev.dt)))
\* noise moves each limited joint towards some configuration inside its limits; the rest is untouched
TNoise == /\ IsEvent("Noise")
          /\ Check("C10.noise", /\ Len(Ev.q) = Len(conf.q) /\ MNear(Ev.base, conf.base, "1e-6")
                /\ \A i \in 1..Len(conf.q) :
                     IF lim.lo[i] = "-1.7976931348623157e+308" \/ lim.hi[i] = "1.7976931348623157e+308" THEN NNear(Ev.q[i], conf.q[i], "1e-9")
                     ELSE LET k == NSub(1, Ev.noise) IN
                          /\ NLeAbs(NAdd(NMul(k, conf.q[i]), NMul(Ev.noise, lim.lo[i])), Ev.q[i], "1e-9")
                          /\ NLeAbs(Ev.q[i], NAdd(NMul(k, conf.q[i]), NMul(Ev.noise, lim.hi[i])), "1e-9"))
          /\ SetConf([conf EXCEPT !.q = Ev.q])

TFrame == IsEvent("Frame") /\ UNCHANGED robotVars /\ Check("C10.frame", MNear(Ev.T, FrameIn(kin, Ev.f), "1e-6"))
TFrameAB == IsEvent("FrameAB") /\ UNCHANGED robotVars /\ Check("C10.relative", MNear(Ev.T, Relative(kin, Ev.f, Ev.g), "1e-6"))
TFrameJac == IsEvent("FrameJac") /\ UNCHANGED robotVars /\ Check("C11.frame", MNear(Ev.J, FrameJac(kin, Ev.f, Ev.ref), "1e-6"))
TJointJac == IsEvent("JointJac") /\ UNCHANGED robotVars /\ Check("C11.joint", MNear(Ev.J, JointJac(kin, Ev.j, Ev.ref), "1e-6"))
\* (recorded when the configuration has not changed since the last update)
TFrameJacDot == /\ IsEvent("FrameJacDot") /\ UNCHANGED robotVars
                /\ Check("C11.frame_dot", MNear(Ev.J, Derivative(LAMBDA K : FrameJac(K, Ev.f, Ev.ref), conf, conf.v), "2e-5"))
TRelJac == /\ IsEvent("RelJac") /\ UNCHANGED robotVars
           /\ Check("C11.relative", \A k \in 1..NV :
                LET e == [i \in 1..NV |-> IF i = k THEN 1 ELSE 0] IN
                VNear([r \in 1..3 |-> Ev.J[r][k]], Derivative(LAMBDA K : <<FPos(Relative(K, Ev.f, Ev.g))>>, conf, e)[1], "2e-5"))
THessian == /\ IsEvent("Hessian") /\ UNCHANGED robotVars
            /\ LET e == [i \in 1..NV |-> IF i = Ev.k THEN 1 ELSE 0] IN
               Check("C11.hessian", MNear(Ev.J, Derivative(LAMBDA K : FrameJac(K, Ev.f, "local"), conf, e), "2e-5"))
TCom == IsEvent("Com") /\ UNCHANGED robotVars /\ Check("C12.com", VNear(Ev.p, Com(kin), "1e-6"))
TComJac == IsEvent("ComJac") /\ UNCHANGED robotVars /\ Check("C11.com", MNear(Ev.J, ComJac(KinOf(conf)), "1e-6"))
TComJacDot == IsEvent("ComJacDot") /\ UNCHANGED robotVars /\ Check("C11.com_dot", MNear(Ev.J, Derivative(ComJac, conf, conf.v), "2e-5"))
TCentroidal == IsEvent("Centroidal") /\ UNCHANGED robotVars /\ Check("C11.centroidal", MNear(Ev.J, CentroidalMap(KinOf(conf)), "1e-6"))
TMassMatrix == /\ IsEvent("MassMatrix") /\ UNCHANGED robotVars
               /\ Check("C12.mass_matrix", MNear(Ev.M, MassMatrix(KinOf(conf)), "1e-6") /\ MPosDef(Ev.M, "1e-7"))
TGravity == IsEvent("Gravity") /\ UNCHANGED robotVars /\ Check("C12.gravity", VNear(Ev.v, GravityForces(KinOf(conf)), "1e-6"))
TBias == IsEvent("Bias") /\ UNCHANGED robotVars /\ Check("C12.bias", VNear(Ev.v, Bias(conf), "2e-5"))
\* a wrench w at frame f balances gravity together with the joint torques, without any force on the base
TStatic == /\ IsEvent("Static") /\ UNCHANGED robotVars
           /\ LET K == TLCEval(KinOf(conf)) IN
              Check("C12.static", /\ VNearAbs(SubSeq(Ev.tau, 1, 6), VZero(6), Ev.tol)
                                  /\ VNearAbs(VAdd(Ev.tau, MTV(FrameJac(K, Ev.f, "lwa"), Ev.w, NV)), GravityForces(K), Ev.tol)
                                  /\ VNearAbs(Ev.dict, SubSeq(Ev.tau, 7, NV), "1e-9"))
\* accelerations (the base following from the fixed frame), wrench of the fixed frame and torques satisfy the equation of motion
TFixed == /\ IsEvent("Fixed") /\ UNCHANGED robotVars
          /\ LET K == TLCEval(KinOf(conf))
                 J == TLCEval(FrameJac(K, Ev.f, "lwa"))
                 Jd == Derivative(LAMBDA K2 : FrameJac(K2, Ev.f, "lwa"), conf, conf.v)
                 acc == Ev.base_acc \o Ev.acc
             IN Check("C12.fixed", /\ VNearAbs(VAdd(MV(J, acc), MV(Jd, conf.v)), VZero(6), Ev.tol)
                                   /\ VNearAbs(VAdd(MV(MassMatrix(K), acc), Bias(conf)), VAdd(VZero(6) \o Ev.tau, MTV(J, Ev.w, NV)), Ev.tol)
                                   /\ VNearAbs(Ev.dict, Ev.tau, "1e-9"))

\* collision objects: spheres [joint, c, r]
Center(s) == Apply(KinOf(conf).oM[s.joint], s.c)
TDistances ==
  /\ IsEvent("Distances") /\ UNCHANGED robotVars
  /\ Check("C13.pairs", Len(Ev.d) = Len(Ev.pairs) /\ \A i \in 1..Len(Ev.pairs) :
        \E k \in 1..Len(Ev.d) : ({Ev.d[k].a, Ev.d[k].b} = {Ev.pairs[i][1], Ev.pairs[i][2]}))
  /\ LET K == TLCEval(KinOf(conf))
         C(i) == Apply(K.oM[Ev.objs[i].joint], Ev.objs[i].c)
         gap(a, b) == NSub(VNorm(VSub(C(a), C(b))), NAdd(Ev.objs[a].r, Ev.objs[b].r))
     IN /\ Check("C13.distance", \A k \in 1..Len(Ev.d) : LET e == Ev.d[k] IN
              /\ NNearAbs(e.dist, gap(e.a, e.b), "1e-5")
              /\ (NLe("1e-3", gap(e.a, e.b)) \/ (NLe(gap(e.a, e.b), "-1e-3") /\ NLe("1e-3", VNorm(VSub(C(e.a), C(e.b)))))) =>
                   /\ NNearAbs(VNorm(VSub(e.pa, C(e.a))), Ev.objs[e.a].r, "1e-4") /\ NNearAbs(VNorm(VSub(e.pb, C(e.b))), Ev.objs[e.b].r, "1e-4")
                   /\ NNearAbs(VNorm(VSub(e.pa, e.pb)), NAbs(gap(e.a, e.b)), "1e-4")
              /\ e.ja = Ev.objs[e.a].joint /\ e.jb = Ev.objs[e.b].joint)
        /\ Check("C13.collisions",
              /\ \A k \in 1..Len(Ev.coll) : \E i \in 1..Len(Ev.pairs) : {Ev.coll[k].a, Ev.coll[k].b} = {Ev.pairs[i][1], Ev.pairs[i][2]}
              /\ \A i \in 1..Len(Ev.pairs) : LET a == Ev.pairs[i][1]  b == Ev.pairs[i][2]
                                                hit == \E k \in 1..Len(Ev.coll) : {Ev.coll[k].a, Ev.coll[k].b} = {a, b} IN
                    /\ NLe(gap(a, b), "-1e-4") => hit
                    /\ NLe("1e-4", gap(a, b)) => ~hit
              /\ \A k \in 1..Len(Ev.coll) : Ev.coll[k].ja = Ev.objs[Ev.coll[k].a].joint /\ Ev.coll[k].jb = Ev.objs[Ev.coll[k].b].joint
                                            /\ Ev.coll[k].na = Ev.coll[k].a /\ Ev.coll[k].nb = Ev.coll[k].b)
        \* a contact is a point of both bodies
        /\ Check("C13.contact", \A k \in 1..Len(Ev.coll) : LET e == Ev.coll[k] IN
              NLeAbs(VNorm(VSub(e.p, C(e.a))), Ev.objs[e.a].r, "1e-5") /\ NLeAbs(VNorm(VSub(e.p, C(e.b))), Ev.objs[e.b].r, "1e-5"))
        /\ Check("C13.first", /\ Ev.first = (IF Len(Ev.coll) > 0 THEN 1 ELSE 0)
                               /\ \A i \in 1..Len(Ev.firstc) : \E k \in 1..Len(Ev.coll) : Ev.coll[k].a = Ev.firstc[i].a /\ Ev.coll[k].b = Ev.firstc[i].b)
\* loading pairs: link names or object numbers; unknown links are refused
TPairs == IsEvent("Pairs") /\ UNCHANGED robotVars /\ Check("C13.load", Ev.ok = Ev.valid)

TNext == \/ TReset \/ TCrash \/ TLoad \/ TSetJoint \/ TSetVel \/ TSetAcc \/ TSetV \/ TSetA \/ TGet \/ TState \/ TUnknown \/ TResetState \/ TNeutral
         \/ TSetLimits \/ TSetMotors \/ TLimits \/ TSetBase \/ TSetFrame \/ TUpdate \/ TSetGravity \/ TSetRotor \/ TIntegrate \/ TNoise
         \/ TFrame \/ TFrameAB \/ TFrameJac \/ TJointJac \/ TFrameJacDot \/ TRelJac \/ THessian \/ TCom \/ TComJac \/ TComJacDot
         \/ TCentroidal \/ TMassMatrix \/ TGravity \/ TBias \/ TStatic \/ TFixed \/ TDistances \/ TPairs
TraceSpec == TraceStart /\ rob = <<>> /\ conf = <<>> /\ lim = <<>> /\ kin = <<>> /\ [][TNext]_<<robotVars, l>>
=============================================================================
