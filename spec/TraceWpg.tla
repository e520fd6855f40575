------------------------------ MODULE TraceWpg ------------------------------
EXTENDS Wpg, TraceLib
Tol == "1e-6"
Eps == "1e-9"
Event(e) == IsEvent(e) /\ UNCHANGED wpgVars
TReset == IsEvent("Reset") /\ par' = <<>> /\ steps' = <<>> /\ sups' = <<>> /\ gen' = <<>> /\ traj' = <<>> /\ UNCHANGED geomVars
TCrash == Event("Crash") /\ Report("crash")

TPar == IsEvent("Par") /\ SetPar(Ev.p) /\ UNCHANGED <<gen, traj>>
TGen == IsEvent("Gen") /\ SetGen([om2 |-> NDiv("9.80665", par.walk_com_height), soft |-> Ev.soft, wz |-> Ev.wz, wstop |-> Ev.wstop])
\* the parameters are read when planning; the pendulum when the generator is created
TSteps == IsEvent("Steps") /\ SetSteps(Ev.steps) /\ UNCHANGED <<gen, traj>>
TSups == IsEvent("Sups") /\ SetSups(Ev.sups) /\ UNCHANGED <<gen, traj>>

SameFoot(f, g) == f.side = g.side /\ MNear(f.T, g.T, Tol) /\ NNear(f.w, g.w, Eps) /\ NNear(f.l, g.l, Eps)
SamePhase(s, e) == /\ Len(s.feet) = Len(e.feet) /\ \A k \in 1..Len(s.feet) : SameFoot(e.feet[k], s.feet[k])
                   /\ e.start = s.start /\ e.end = s.end /\ NNear(e.t, s.t, Eps) /\ NNear(e.el, s.el, Tol) /\ NNear(e.tr, s.tr, Tol)
SameSup(s, e) == SamePhase(s, e) /\ VNear(e.dcm, s.dcm, Tol)
SamePhases(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SamePhase(a[k], b[k])

RECURSIVE Flat(_, _)
Flat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Flat(ss, k + 1)
Jerks == Flat(Ev.ux, 1) \o Flat(Ev.uy, 1)
\* the centre of mass of a new trajectory, from the state <<X, Y>>
Hulls(ss) == Len(Ev.polys) = Len(ss) /\ \A k \in 1..Len(ss) : IsHull(Ev.polys[k], AllCorners(ss[k]), "1e-7")
CheckW(where, name, cond) == IF cond THEN TRUE ELSE Report("C24." \o name) /\ (where = "C24." \/ Report(where \o name))
Optimal(ss, X, Y, where) ==
  \E cons \in {Program(ss, Ev.polys, X, Y)}, x \in {Jerks} :
     /\ CheckW(where, "hull", Hulls(ss))
     /\ CheckW(where, "zmp", \A i \in 1..Len(cons) : (cons[i].hard /\ cons[i].ineq) => RowsHold(cons[i], x, "1e-5"))
     /\ CheckW(where, "stop", \A i \in 1..Len(cons) : (cons[i].hard /\ ~cons[i].ineq) => RowsHold(cons[i], x, "1e-5"))
     /\ CheckW(where, "optimal", IF gen.soft THEN KNoWorse(cons, x, Ev.best, "1e-8", "1e-2") ELSE KOptimal(cons, x, "1e-8", Ev.mult, "1e-4", Ev.scale))
\* a failure is only accepted when there is no point well inside the constraints
Excused(ss, X, Y) == ~Has("witness") \/ ~KFeasible(TLCEval(Program(ss, Ev.polys, X, Y)), Ev.witness, "1e-9")
Times(ss, t0) == LET ts == TLCEval(Starts(ss, t0, 1)) IN
  /\ NNear(Ev.te, ts[Len(ts)], Eps) /\ NNear(Ev.t0, t0, Eps)
  /\ Len(Ev.ts) = Len(ss) /\ \A k \in 1..Len(ss) : NNear(Ev.ts[k][1], ts[k], Eps) /\ NNear(Ev.ts[k][2], ts[k + 1], Eps)
Dated(ss, t0) == LET ts == TLCEval(Starts(ss, t0, 1)) IN [k \in 1..Len(ss) |-> [ss[k] EXCEPT !.t = IF NNearAbs(@, -1, "1e-12") THEN ts[k] ELSE @]]
\* one jerk per planning step
Sampled(ss) == Len(Ev.ux) = Len(ss) /\ \A k \in 1..Len(ss) : Len(Ev.ux[k]) = PlanSteps(ss[k]) /\ Len(Ev.uy[k]) = PlanSteps(ss[k])

TPlan ==
  /\ IsEvent("Plan")
  /\ IF ~CanPlan(sups)
     THEN Check("C24.ill_formed", ~Ev.ok) /\ UNCHANGED wpgVars
     ELSE IF ~Ev.ok
     THEN Check("C24.refused", Excused(sups, AtRest(Ev.com).X, AtRest(Ev.com).Y)) /\ UNCHANGED wpgVars
     ELSE \E from \in {AtRest(Ev.com)} :
          /\ Check("C24.times", Times(sups, Ev.at))
          /\ Check("C24.dated", SamePhases(TLCEval(Dated(sups, Ev.at)), Ev.after))
          /\ Sampled(sups)
          /\ Optimal(sups, from.X, from.Y, "C24.")
          /\ \E x \in {Made(sups, Ev.at, Ev.ux, Ev.uy, from)} : SetTraj(x)

TReplan ==
  /\ IsEvent("Replan")
  /\ IF ~CanReplanFrom(sups)
     THEN Check("C26.ill_formed", Ev.raised) /\ UNCHANGED wpgVars
     ELSE \E from \in {Kept(sups[1], Ev.at)} :
     IF Ev.raised
     THEN Report("C26.raised") /\ UNCHANGED wpgVars
     ELSE IF ~Ev.ok
     THEN /\ Check("C26.refused", Excused(sups, from.X, from.Y))
          /\ LET x == TLCEval(Trimmed(Ev.at)) IN SetTraj(x)
     ELSE /\ Check("C26.times", Times(sups, Ev.at))
          /\ Check("C26.dated", SamePhases(TLCEval(Dated(sups, Ev.at)), Ev.after))
          /\ Sampled(sups)
          /\ Optimal(sups, from.X, from.Y, "C26.")
          /\ \E x \in {Made(sups, Ev.at, Ev.ux, Ev.uy, from)} : SetTraj(x)

\* which property an observation belongs to, depending on the history
CheckQ(p, name, cond) == IF cond THEN TRUE ELSE Report(p \o name) /\ (~Ev.replanned \/ Report("C26." \o name))
TQuery ==
  /\ Event("Query")
  /\ LET t == Ev.t  I == PartsAt(t)  om == NSqrt(gen.om2) IN
     /\ CheckQ("C24.", "com", \E i \in I : LET c == TLCEval(Com(i, t)) IN
           /\ VNear(Ev.p, c.p, Tol) /\ VNear(Ev.v, c.v, Tol)
           /\ VNear(Ev.a, c.a, Tol) /\ (Ev.tie \/ VNear(Ev.j, c.j, Tol))
           /\ VNear(Ev.zmp, <<NSub(c.p[1], NDiv(c.a[1], gen.om2)), NSub(c.p[2], NDiv(c.a[2], gen.om2))>>, Tol)
           /\ VNear(Ev.dcm, <<NAdd(c.p[1], NDiv(c.v[1], om)), NAdd(c.p[2], NDiv(c.v[2], om))>>, Tol))
     /\ CheckQ("C25.", "feet", \E i \in I : \A side \in {"left", "right"} : MNear(Ev.feet[side], FootT(i, side, t), Tol))
     /\ CheckQ("C25.", "feet_velocity", \E i \in I : \A side \in {"left", "right"} : VNear(Ev.vfeet[side], FootV(i, side, t), Tol))
     /\ CheckQ("C25.", "trunk", MNear(Ev.trunk, TrunkR(t), Tol))
     /\ CheckQ("C25.", "support", \E i \in I :
           /\ SameSup(SupAt(i, 0), Ev.sup) /\ SameSup(SupAt(i, Ev.n), Ev.next) /\ SameSup(SupAt(i, -Ev.n), Ev.prev)
           /\ Ev.both = IsBoth(Parts[i].sup) /\ (Ev.both \/ Ev.side = Parts[i].sup.feet[1].side)
           /\ NNear(Ev.ts, Parts[i].ts, Eps) /\ NNear(Ev.te, Parts[i].te, Eps))
     /\ CheckQ("C25.", "end_dcm", \E i \in I : LET c == TLCEval(Com(i, Parts[i].te)) IN
           VNear(Ev.end_dcm, <<NAdd(c.p[1], NDiv(c.v[1], om)), NAdd(c.p[2], NDiv(c.v[2], om))>>, Tol))
     /\ CheckQ("C25.", "in_support", Ev.both \/ \E i \in I :
           LET S == TLCEval(FInv(Flatten(FootT(i, Parts[i].sup.feet[1].side, t))))
               c == TLCEval(Com(i, t))
               q == MV(S, Append(c.p, 1))
               w == MV(FRot(S), c.v)
           IN /\ VNear(Ev.sp, <<q[1], q[2], q[3]>>, Tol) /\ VNear(Ev.sv, w, Tol)
              /\ VNear(Ev.sdcm, <<NAdd(q[1], NDiv(w[1], om)), NAdd(q[2], NDiv(w[2], om))>>, Tol))
\* the supports of the whole trajectory
TAll == /\ Event("All")
        /\ CheckQ("C25.", "supports", LET N == Len(Parts) IN
              Len(Ev.sups) = N /\ \A k \in 1..N : SameSup(TLCEval(InWorld(Parts[k].sup)), Ev.sups[k]))
        /\ CheckQ("C25.", "span", NNear(Ev.t0, traj.t0, Eps) /\ NNear(Ev.te, traj.te, Eps) /\ Ev.ok = traj.ok
                                      /\ NNear(Ev.z, traj.z, Eps) /\ NNear(Ev.pitch, traj.pitch, Eps))
TTransform == IsEvent("Transform") /\ Transform(Ev.T)
TCanReplan == Event("CanReplan") /\ Check("C26.can_replan", \E i \in PartsAt(Ev.t) : Ev.v = CanReplan(i))
TReplanSups ==
  /\ IsEvent("ReplanSups") /\ UNCHANGED <<geomVars, par, steps, gen, traj>>
  /\ LET i == CHOOSE i \in PartsAt(Ev.t) : TRUE IN
     IF ~CanReplan(i) THEN Check("C26.replan_refused", ~Ev.ok) /\ UNCHANGED sups
     ELSE LET S == TLCEval(ReplanSups(i, Ev.steps, Ev.t, Ev.since)) IN
          /\ Check("C26.replan_from", LET fs == Ev.steps IN
                Len(fs) >= 2 /\ SameFoot(fs[1], TLCEval(SupAt(i, 0)).feet[1]) /\ SameFoot(fs[2], FootOf(TLCEval(SupAt(i, 1)), Other(fs[1].side))))
          /\ Check("C26.replan_supports", Ev.ok /\ SamePhases(S, Ev.sups))
          /\ IF Ev.ok THEN sups' = Ev.sups ELSE UNCHANGED sups

\* ---- reaction to the measured divergent component of motion
TOptimalZmp ==
  /\ Event("OptimalZmp")
  /\ \E cons \in {ZmpProgram(sups[1], Ev.poly, Ev.from, Ev.to, Ev.d)} :
     /\ Check("C26.zmp_hull", IsHull(Ev.poly, AllCorners(sups[1]), "1e-7"))
     /\ IF Ev.ok THEN /\ Check("C26.zmp_inside", KFeasible(cons, Ev.x, "1e-6"))
                      /\ Check("C26.zmp_optimal", KOptimal(cons, Ev.x, "1e-8", Ev.mult, "1e-5", Ev.scale))
        ELSE Check("C26.zmp_refused", ~Has("witness") \/ ~KFeasible(cons, Ev.witness, "1e-9"))
TUpdate ==
  /\ IsEvent("Update") /\ UNCHANGED <<geomVars, par, steps, gen, traj>>
  /\ IF IsBoth(sups[1]) THEN Check("C26.update_refused", ~Ev.ok) /\ UNCHANGED sups
     ELSE \E cons \in {UpdateProgram(sups, Ev.t, Ev.dcm, Ev.zmp, Ev.op, Ev.off)} :
        IF ~Ev.ok THEN Check("C26.update_failed", ~Has("witness") \/ ~KFeasible(cons, Ev.witness, "1e-9")) /\ UNCHANGED sups
        ELSE \E tau \in {UpdatedTau(sups[1], Ev.t, Ev.sups[1].tr)} :
             \* a phase never ends before now, a millisecond is always left: when the end cannot be seen, the trace proposes it
             \E x \in {UpdateVars(sups, Ev.t, Ev.dcm, Ev.zmp, IF Has("tau") THEN Ev.tau ELSE tau, Ev.sups[2].feet[1].T)} :
             /\ Check("C26.update_ends", /\ NLe(NMul("0.99", Soonest(sups[1], Ev.t)), tau)
                                         /\ Has("tau") => NLe(Ev.tau, NMul(tau, "1.000001")) /\ NLe(tau, NMul("1.000001", Soonest(sups[1], Ev.t))))
             /\ Check("C26.update_feasible", KFeasible(cons, x, "1e-4"))
             /\ Check("C26.update_optimal", KOptimal(cons, x, "1e-8", Ev.mult, "1e-4", Ev.scale))
             \* nothing else changes
             /\ Check("C26.update_only", /\ Len(Ev.sups) = Len(sups)
                   /\ \A k \in 1..Len(sups) : SameSup([sups[k] EXCEPT !.tr = IF k = 1 THEN Ev.sups[1].tr ELSE @,
                         !.feet[1].T = IF k = 2 THEN [@ EXCEPT ![1][4] = Ev.sups[2].feet[1].T[1][4], ![2][4] = Ev.sups[2].feet[1].T[2][4]] ELSE @], Ev.sups[k]))
             /\ sups' = Ev.sups

TNext == \/ TReset \/ TCrash \/ TPar \/ TGen \/ TSteps \/ TSups \/ TPlan \/ TReplan \/ TQuery \/ TAll \/ TTransform \/ TCanReplan \/ TReplanSups \/ TOptimalZmp \/ TUpdate
TraceSpec == TraceStart /\ WpgInit /\ [][TNext]_<<wpgVars, l>>
=============================================================================
