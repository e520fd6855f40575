------------------------------ MODULE TraceGeom ------------------------------
EXTENDS Geom, TraceLib
Tol == "1e-7"
TReset == IsEvent("Reset") /\ mask' = [axes |-> <<1, 2, 3>>, frame |-> "task", Rl |-> I3, Rc |-> I3]
TCrash == IsEvent("Crash") /\ Report("crash") /\ UNCHANGED geomVars

\* integer segments: exact answers
TSeg == /\ IsEvent("Seg") /\ UNCHANGED geomVars
        /\ LET s == Ev.s  o == Ev.o IN
           /\ Check("C09.parallel", Ev.parallel = Parallel(s, o))
           /\ Check("C09.aligned", Ev.aligned_a = Aligned(s, o.a) /\ Ev.aligned = SegAligned(s, o))
           /\ Check("C09.in_segment", Ev.in_a = InSegment(s, o.a) /\ Ev.in_b = InSegment(s, o.b))
           /\ Check("C09.norm", NNear(NMul(Ev.norm, Ev.norm), VDot(Dir(s), Dir(s)), Tol))
           /\ IF Parallel(s, o) THEN Check("C09.parallel_refused", Ev.raised)
              ELSE /\ Check("C09.intersects", ~Ev.raised /\ Ev.intersects = Intersects(s, o))
                   /\ Check("C09.through", ~Ev.raised /\ Ev.through = LineThrough(s, o) /\ Ev.half = HalfLineThrough(s, o))
                   /\ Check("C09.meet", ~Ev.raised /\ VNear(VScale(ADet(s, o), Ev.meet), Meet(s, o), Tol))

TMask == /\ IsEvent("Mask")
         /\ Check("C09.mask_accept", Ev.ok = (ValidAxes(Ev.axes) /\ ValidFrame(Ev.frame)))
         /\ IF ValidAxes(Ev.axes) /\ ValidFrame(Ev.frame) THEN SetAxes(Ev.axes, Ev.frame) ELSE UNCHANGED geomVars
TRotations == IsEvent("Rotations") /\ SetRotations(Ev.Rl, Ev.Rc)
TApply == IsEvent("Apply") /\ UNCHANGED geomVars /\ Check("C09.mask", MNear(Ev.v, Masked(Ev.M), Tol))

TWrap == /\ IsEvent("Wrap") /\ UNCHANGED geomVars
         /\ Check("C09.wrap", /\ NLeAbs(NAbs(Ev.v), "3.141592653589793", "1e-9")
                              /\ NNearAbs(NSin(Ev.v), NSin(Ev.a), "1e-6") /\ NNearAbs(NCos(Ev.v), NCos(Ev.a), "1e-6"))
TYaw == /\ IsEvent("Yaw") /\ UNCHANGED geomVars
        /\ Check("C09.yaw", LET n == VNorm(<<Ev.R[1][1], Ev.R[2][1]>>) IN
              VNearAbs(<<NMul(n, NCos(Ev.v)), NMul(n, NSin(Ev.v))>>, <<Ev.R[1][1], Ev.R[2][1]>>, Tol))
TFlatten == IsEvent("Flatten") /\ UNCHANGED geomVars /\ Check("C09.flatten", MNear(Ev.v, Flatten(Ev.T), "1e-6"))
TInterpolate == IsEvent("Interpolate") /\ UNCHANGED geomVars /\ Check("C09.interpolate", MNear(Ev.v, Interpolate(Ev.A, Ev.B, Ev.s), "1e-6"))
TFromAxis == /\ IsEvent("FromAxis") /\ UNCHANGED geomVars
             /\ IF Ev.axis \notin {"x", "y", "z"} THEN Check("C09.axis_refused", ~Ev.ok)
                ELSE LET k == AxisOf(Ev.axis)
                         u == VScale(NDiv("1.0", VNorm(Ev.v)), Ev.v) IN
                     Check("C09.from_axis", /\ Ev.ok /\ MIsRot(Ev.R, Tol)
                                            /\ VNear(MV(Ev.R, Unit(k)), u, "1e-6")                        \* maps the axis on the vector
                                            /\ NNear(NAdd(NAdd(Ev.R[1][1], Ev.R[2][2]), Ev.R[3][3]), NAdd(1, NMul(2, u[k])), "1e-6"))   \* smallest rotation
\* best rigid transformation of B on A: barycentres match, and the rotation maximises the correlation of the centered points
RECURSIVE Mean(_, _)
Mean(P, k) == IF k = 0 THEN VZero(3) ELSE VAdd(Mean(P, k - 1), VScale(NDiv("1.0", Len(P)), P[k]))
Centered(P) == LET m == Mean(P, Len(P)) IN [i \in 1..Len(P) |-> VSub(P[i], m)]
TOptimal ==
  /\ IsEvent("Optimal") /\ UNCHANGED geomVars
  /\ IF Ev.bad THEN Check("C09.optimal_refused", ~Ev.ok)
     ELSE LET R == FRot(Ev.T)
              K == MM(MT(Centered(Ev.A)), Centered(Ev.B))
              S == MM(MT(R), K)
              tr == NAdd(NAdd(S[1][1], S[2][2]), S[3][3])
          IN Check("C09.optimal", /\ Ev.ok /\ MIsRot(R, Tol)
                                  /\ VNear(Mean(Ev.A, Len(Ev.A)), VAdd(MV(R, Mean(Ev.B, Len(Ev.B))), FPos(Ev.T)), "1e-6")
                                  /\ MPosDef(MAdd(MScale(tr, I3), MScale(-1, S)), "1e-6"))
TDir2 == /\ IsEvent("Dir2") /\ UNCHANGED geomVars
         /\ Check("C09.directions", \A i \in 1..Ev.n : LET a == NDiv(NMul("6.283185307179586", i - 1), Ev.n) IN VNear(Ev.v[i], <<NCos(a), NSin(a)>>, Tol))
\* unit vectors, evenly spread along z, each one turned by the golden angle around z
TDir3 == /\ IsEvent("Dir3") /\ UNCHANGED geomVars
         /\ Check("C09.directions", \A i \in 1..Ev.n :
              /\ NNear(VDot(Ev.v[i], Ev.v[i]), 1, Tol)
              /\ NNear(Ev.v[i][3], NSub(1, NDiv(NMul("2", NAdd(i - 1, Ev.eps)), NAdd(Ev.n - 1, NMul(2, Ev.eps)))), Tol)
              /\ LET a == NMul("3.883222077450933", i - 1)
                     r == VNorm(<<Ev.v[i][1], Ev.v[i][2]>>) IN VNearAbs(<<Ev.v[i][1], Ev.v[i][2]>>, <<NMul(r, NCos(a)), NMul(r, NSin(a))>>, "1e-6"))
TNext == TReset \/ TCrash \/ TSeg \/ TMask \/ TRotations \/ TApply \/ TWrap \/ TYaw \/ TFlatten \/ TInterpolate \/ TFromAxis \/ TOptimal \/ TDir2 \/ TDir3
TraceSpec == TraceStart /\ GeomInit /\ [][TNext]_<<geomVars, l>>
=============================================================================
