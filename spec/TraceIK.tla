------------------------------ MODULE TraceIK ------------------------------
EXTENDS TraceRobot, IK

KeepIK == UNCHANGED ik
IReset == IsEvent("Reset") /\ rob' = <<>> /\ conf' = <<>> /\ lim' = <<>> /\ kin' = <<>> /\ ik' = <<>>
ISolver == /\ IsEvent("Solver") /\ ik' = IKInit(rob) /\ UNCHANGED robotVars
           /\ Check("C18.new", Ev.n = NV /\ NNear(Ev.dt, 0, "1e-12") /\ Ev.count = 0)
IDt == IsEvent("Dt") /\ SetIK([ik EXCEPT !.dt = Ev.dt])
ILimits == IsEvent("EnableLimits") /\ SetIK([ik EXCEPT !.jl = Ev.jl, !.vl = Ev.vl])
IMask == IsEvent("Mask") /\ SetIK([ik EXCEPT !.masked = IF Ev.on THEN @ \cup {Ev.j} ELSE @ \ {Ev.j}])
IMaskBase == IsEvent("MaskBase") /\ SetIK([ik EXCEPT !.fbase = Ev.on])
IAddTask == IsEvent("AddTask") /\ AddTask(Ev.t)
ISetTask == IsEvent("SetTask") /\ SetTask(Ev.i, Ev.ch)
IConfigure == IsEvent("Configure") /\ SetTask(Ev.i, [prio |-> Ev.prio, w |-> Ev.w])
IJoint == /\ IsEvent("JointTarget") /\ SetTask(Ev.i, [joints |-> PutJoint(ik.tasks[Ev.i].joints, Ev.j, Ev.x)])
          /\ Check("C16.get_joint", NNear(Ev.get, Ev.x, "1e-9"))
IGear == IsEvent("Gear") /\ SetTask(Ev.i, [gears |-> PutGear(ik.tasks[Ev.i].gears, Ev.j, Ev.s, Ev.r, Ev.keep)])
IRemove == IsEvent("Remove") /\ SetTask(Ev.i, [in |-> FALSE])
IReadd == IsEvent("Readd") /\ SetTask(Ev.i, [in |-> TRUE])
IAddCon == IsEvent("AddCon") /\ AddCon(Ev.t)
IConfigureCon == IsEvent("ConfigureCon") /\ SetCon(Ev.i, [prio |-> Ev.prio, w |-> Ev.w])
IConParams == IsEvent("ConParams") /\ SetCon(Ev.i, Ev.ch)
IRemoveCon == IsEvent("RemoveCon") /\ SetCon(Ev.i, [in |-> FALSE])
IReaddCon == IsEvent("ReaddCon") /\ SetCon(Ev.i, [in |-> TRUE])
IClear == IsEvent("Clear") /\ ClearAll
ICount == IsEvent("Count") /\ UNCHANGED <<robotVars, ik>> /\ Check("C18.count", Ev.n = Len(InTasks))
IRefused == IsEvent("Refused") /\ UNCHANGED <<robotVars, ik>> /\ Check(IF Has("solving") THEN "C14.error" ELSE "C18.refused", \A i \in 1..Len(Ev.ok) : ~Ev.ok[i])
\* square root of the quadratic form of the kinetic energy task
IRoot == /\ IsEvent("Root") /\ SetTask(Ev.i, [root |-> Ev.M])
         /\ Check("C15.root", MNear(MM(MT(Ev.M), Ev.M), TaskGram(ik.tasks[Ev.i]).Q, "1e-6"))

ITaskMat ==
  /\ IsEvent("TaskMat") /\ UNCHANGED <<robotVars, ik>>
  /\ LET t == ik.tasks[Ev.i]
         G == TLCEval(TaskGram(t))
         tol == IF t.type = "manipulability" THEN "2e-5" ELSE "1e-6"
     IN Check("C16." \o t.type,
          IF Ev.A = <<>> THEN VNearAbs(G.c, VZero(NV), tol) /\ NNear(G.e, 0, tol)
          ELSE /\ MNear(MM(MT(Ev.A), Ev.A), G.Q, tol)
               /\ VNear(MTV(Ev.A, Ev.b, NV), G.c, tol)
               /\ NNear(VDot(Ev.b, Ev.b), G.e, tol)
               /\ VNear(Ev.error, Ev.b, "1e-9") /\ NNear(Ev.norm, VNorm(Ev.b), "1e-9"))

\* the rows the trace is judged with: the kinetic energy through its recorded root
Rows(i) == LET t == ik.tasks[i] IN
  IF t.type = "kinetic" THEN Eq(Wide0(t.root), VZero(Len(t.root)), FALSE, t.w) ELSE TaskRows(t)
TProgram == LET T == InTasks  C == InCons IN
  [i \in 1..Len(T) |-> TLCEval(Rows(T[i]))] \o ScaleRows \o MaskRows \o LimitRows \o [i \in 1..Len(C) |-> TLCEval(ConRows(ik.cons[C[i]]))]
HasCone == \E i \in 1..Len(ik.cons) : ik.cons[i].in /\ ik.cons[i].type = "cone"

ISolved ==
  /\ IsEvent("IKSolve") /\ Ev.ok
  /\ LET x == IF Scaling THEN Append(Ev.dq, Ev.scale) ELSE Ev.dq
         T == InTasks  C == InCons
         prog == TLCEval(TProgram)
         nt == Len(T)
         nc == Len(C)
         np == Len(prog)
         hi == "1e-5"
     IN IF Len(Ev.dq) # NV \/ ~VFinite(Ev.dq) THEN Report("C15.size") /\ UNCHANGED <<robotVars, ik>>
        ELSE
        /\ SolveOk(Ev.dq, Ev.scale, Ev.apply)
        /\ Check("C14.limits", KFeasible(MaskRows \o LimitRows, x, hi))
        /\ Check("C18.masks", KFeasible(MaskRows, x, hi))
        /\ Check("C15.hard", KFeasible([i \in 1..nt |-> prog[i]], x, hi))
        /\ Check("C15.scale", Scaling => NLeAbs(0, Ev.scale, hi) /\ NLeAbs(Ev.scale, 1, hi))
        /\ Check("C17.constraints", \A i \in 1..nc : prog[np - nc + i].hard => RowsHold(prog[np - nc + i], x, hi))
        /\ Check("C14.accepted", ~(Has("farkas") /\ KInfeasible(prog, Ev.farkas, NX, "1e-7")))
        /\ (Has("mult") /\ ~HasCone) =>
              LET opt == KOptimal(prog, x, Regularization, Ev.mult, "1e-4", Ev.mag) IN
              Check(IF Ev.life THEN "C18.optimal" ELSE IF nc > 0 THEN "C17.optimal" ELSE "C15.optimal", opt)
        /\ LET c == IF Ev.apply THEN TLCEval(Moved(Ev.dq)) ELSE conf IN
           \* velocities are those of the shortest rotation of the base: same as the displacement below half a turn
           Check("C14.apply", /\ VNear(Ev.q, c.q, "1e-6") /\ MNear(Ev.base, c.base, "1e-6")
                              /\ (Ev.apply /\ NLe(3, VNorm(SubSeq(Ev.dq, 4, 6)))) \/ (VNear(Ev.v, c.v, "1e-6") /\ VNear(Ev.a, c.a, "1e-6")))
\* a refused problem: the robot has not moved, and (when the trace has a witness) the hard constraints contradict each other
IFailed ==
  /\ IsEvent("IKSolve") /\ ~Ev.ok /\ SolveFailed
  /\ Check("C14.unchanged", VNear(Ev.q, conf.q, "1e-9") /\ MNear(Ev.base, conf.base, "1e-6") /\ VNear(Ev.v, conf.v, "1e-9") /\ VNear(Ev.a, conf.a, "1e-9"))
  /\ LET l1 == IF Ev.life THEN "C18.solve" ELSE IF Len(InCons) > 0 THEN "C17.refused" ELSE "C14.refused" IN
     Check(l1, ~Has("witness") \/ ~KFeasible(TProgram, Ev.witness, "1e-7"))
ISync == /\ IsEvent("Sync") /\ conf' = [conf EXCEPT !.q = Ev.q, !.v = Ev.v, !.a = Ev.a, !.base = Ev.base] /\ UNCHANGED <<rob, lim, kin, ik>>

INext == \/ IReset \/ ISolver \/ IDt \/ ILimits \/ IMask \/ IMaskBase \/ IAddTask \/ ISetTask \/ IConfigure \/ IJoint \/ IGear \/ IRemove \/ IReadd
         \/ IAddCon \/ IConfigureCon \/ IRemoveCon \/ IReaddCon \/ IConParams \/ IClear \/ ICount \/ IRefused \/ IRoot \/ ITaskMat \/ ISolved \/ IFailed \/ ISync
         \/ (l <= Len(Trace) /\ Ev.e # "Reset" /\ TNext /\ KeepIK)
IKTraceSpec == TraceStart /\ rob = <<>> /\ conf = <<>> /\ lim = <<>> /\ kin = <<>> /\ ik = <<>> /\ [][INext]_<<robotVars, ik, l>>
=============================================================================
