---------------------------- MODULE TraceHumanoid ----------------------------
EXTENDS Humanoid, TraceLib
Keep == UNCHANGED humVars
Event(e) == IsEvent(e) /\ Keep
HReset == /\ IsEvent("Reset") /\ rob' = <<>> /\ conf' = <<>> /\ lim' = <<>> /\ kin' = <<>> /\ par' = <<>> /\ hum' = <<>> /\ wt' = <<>> /\ dw' = <<>>
          /\ UNCHANGED <<geomVars, steps, sups>>
HCrash == Event("Crash") /\ Report("crash")
Neutral(r) == LET n == Len(r.joints) - 1 IN [base |-> r.base0, q |-> VZero(n), v |-> VZero(n + 6), a |-> VZero(n + 6)]
\* a new robot stands on its left foot, at the origin of the world
HLoad ==
  /\ IsEvent("Load")
  /\ \E r \in {[joints |-> Ev.joints, bodies |-> Ev.bodies, frames |-> Ev.frames, g |-> <<0, 0, "-9.81">>, rotor |-> VZero(Len(Ev.joints) - 1), base0 |-> Ev.base0]} :
        rob' = r /\ conf' = Neutral(r) /\ kin' = <<>>
  /\ lim' = [lo |-> Ev.lo, hi |-> Ev.hi] /\ hum' = NewHum(Ev.left, Ev.right, Ev.trunk) /\ OnlyRobot
HStand0 == IsEvent("Stand0") /\ Stand(hum) /\ OnlyRobot

Edit(c) == conf' = c /\ UNCHANGED <<rob, lim, kin, hum>> /\ OnlyRobot
HJoints == IsEvent("Joints") /\ Edit([conf EXCEPT !.q = Ev.q])
HVel == IsEvent("Vel") /\ Edit([conf EXCEPT !.v = Ev.v])
HBase == IsEvent("Base") /\ Edit([conf EXCEPT !.base = Ev.T])
HUpdate == IsEvent("Update") /\ kin' = KinOf(conf) /\ UNCHANGED <<rob, conf, lim, hum>> /\ OnlyRobot
\* what a solver left in the robot (the noise it adds is not predictable)
HObserve == IsEvent("Observe") /\ Edit([conf EXCEPT !.q = Ev.q, !.base = Ev.base])

HSide == IsEvent("Side") /\ SwitchSupport(Ev.side, FootFrame(Ev.side)) /\ UNCHANGED robotVars /\ OnlyRobot
HSideFrame == IsEvent("SideFrame") /\ SwitchSupport(Ev.side, Ev.f) /\ UNCHANGED robotVars /\ OnlyRobot
HSetSupport == IsEvent("SetSupport") /\ hum' = [hum EXCEPT !.T = Ev.T] /\ UNCHANGED robotVars /\ OnlyRobot
HFloor == IsEvent("Floor") /\ Stand(hum) /\ OnlyRobot
HImu == IsEvent("Imu") /\ (\E h \in {Turned(Ev.R)} : Stand(h)) /\ OnlyRobot
HPose ==
  /\ Event("Pose")
  /\ Check("C28.side", Ev.side = hum.side /\ MNear(Ev.T, hum.T, "1e-6"))
  /\ Check("C28.base", MNear(Ev.base, conf.base, "1e-6"))
  /\ Check("C28.feet", MNear(Ev.left, FrameIn(kin, hum.left), "1e-6") /\ MNear(Ev.right, FrameIn(kin, hum.right), "1e-6") /\ MNear(Ev.trunk, FrameIn(kin, hum.trunk), "1e-6"))
\* recorded right after the robot was put on the floor
HStanding == Event("Standing") /\ Check("C28.standing", MNear(Ev.support, hum.T, "1e-6") /\ (Ev.imu => MNear(FRot(Ev.trunk), Ev.R, "1e-6")))
\* base: a witness of the velocity of the floating base
HComVel ==
  /\ Event("ComVel")
  /\ \E v \in {Ev.base \o SubSeq(conf.v, 7, NV)} :
        Check("C28.com_velocity", SupportMotion(FootFrame(Ev.side), hum.trunk, v, Ev.omega, "1e-6") /\ VNear(Ev.vel, MV(ComJac(kin), v), "1e-6"))
HDcm == /\ Event("Dcm")
        /\ \E c \in {SubSeq(Com(kin), 1, 2)} :
             Check("C28.dcm_zmp", /\ VNear(Ev.dcm, VAdd(c, VScale(NDiv("1.0", Ev.omega), Ev.v)), "1e-6")
                                  /\ VNear(Ev.zmp, VSub(c, VScale(NDiv("1.0", NMul(Ev.omega, Ev.omega)), Ev.a)), "1e-6"))
\* base_acc: a witness of the acceleration of the floating base
HTorques ==
  /\ Event("Torques")
  /\ \E lhs \in {VAdd(MV(MassMatrix(kin), Ev.base_acc \o Ev.acc), IF Ev.nle THEN Bias(conf) ELSE GravityForces(kin))} :
     \E rhs \in {VAdd(Ev.tau, NormalForces(Ev.ps, Ev.f, Len(Ev.f)))} :
        Check("C28.torques", /\ VNear(SubSeq(Ev.tau, 1, 6), VZero(6), "1e-6") /\ VNear(lhs, rhs, "1e-4")
                             /\ VNear(Ev.dict, SubSeq(Ev.tau, 7, NV), "1e-9"))

\* ---- walk tasks; count is the number of tasks in the solver
OnlyTasks == UNCHANGED <<robotVars, walkVars, hum, dw>>
WInit == /\ IsEvent("WInit")
         /\ wt' = Tasks(Ev.mode, FrameIn(kin, hum.left), FrameIn(kin, hum.right), IF Ev.mode = "com" THEN Com(kin) ELSE FPos(FrameIn(kin, hum.trunk)), FRot(FrameIn(kin, hum.trunk)))
         /\ OnlyTasks
WUpdate == /\ IsEvent("WUpdate")
           /\ wt' = Tasks(Ev.mode, Ev.L, Ev.R, VAdd(Ev.com, TrunkOffset(Ev)), Ev.trunk)
           /\ OnlyTasks
Near(a, b) == VNear(a, b, "1e-6")
\* the tasks of the solver, their priorities, targets and errors; solver: number of tasks of the solver that walk tasks give access to
WObserve ==
  /\ Event("WTasks")
  /\ Check("C27.count", Ev.count = 6 /\ Ev.solver = 6)
  /\ Check("C27.priority", \A i \in 1..Len(Ev.prio) : Ev.prio[i] = (IF Ev.scaled THEN "scaled" ELSE "soft"))
  /\ Check("C27.targets", /\ MNear(Ev.L, wt.L, "1e-6") /\ MNear(Ev.R, wt.R, "1e-6") /\ MNear(Ev.trunk, wt.trunk, "1e-6") /\ Near(Ev.com, wt.com))
  /\ Check("C27.errors", /\ Ev.errors.mode = wt.mode
                         /\ Near(Ev.errors.lp, PosError(hum.left, FPos(wt.L))) /\ Near(Ev.errors.lo, OriError(hum.left, FRot(wt.L)))
                         /\ Near(Ev.errors.rp, PosError(hum.right, FPos(wt.R))) /\ Near(Ev.errors.ro, OriError(hum.right, FRot(wt.R)))
                         /\ Near(Ev.errors.to, OriError(hum.trunk, wt.trunk))
                         /\ Near(Ev.errors.com, IF wt.mode = "com" THEN VSub(wt.com, Com(kin)) ELSE PosError(hum.trunk, wt.com)))
WRemove == IsEvent("WRemove") /\ wt' = <<>> /\ OnlyTasks /\ Check("C27.removed", Ev.count = 0)
\* the initial pose: feet side by side, center of mass above their middle, trunk pitched; reached when possible
WReach ==
  /\ IsEvent("WReach")
  /\ \E R \in {Frame(FRot(Ev.L), VAdd(FPos(Ev.L), MV(FRot(Ev.L), <<0, NNeg(Ev.spacing), 0>>)))} :
     \E m \in {VScale("0.5", VAdd(FPos(Ev.L), FPos(R)))} :
        wt' = Tasks(Ev.mode, Ev.L, R, VAdd(<<m[1], m[2], Ev.height>>, TrunkOffset(Ev)), MM(RotExp(<<0, 0, Yaw(FRot(Ev.L))>>), RotY(Ev.pitch)))
  /\ OnlyTasks
\* the robot does what its tasks ask
WReached == Event("WReached") /\ Check("C27.reached",
   /\ MNear(FrameIn(kin, hum.left), wt.L, Ev.tol) /\ MNear(FrameIn(kin, hum.right), wt.R, Ev.tol)
   /\ MNear(FRot(FrameIn(kin, hum.trunk)), wt.trunk, Ev.tol)
   /\ VNear(IF wt.mode = "com" THEN Com(kin) ELSE FPos(FrameIn(kin, hum.trunk)), wt.com, Ev.tol))

\* ---- quasi-static walk
OnlyDummy == UNCHANGED <<robotVars, geomVars, steps, sups, hum, wt>>
SameWalk(w) == Ev.left = w.left /\ MNear(Ev.L, w.L, "1e-6") /\ MNear(Ev.R, w.R, "1e-6")
\* the recorded landing must be one of the possible ones; it is the one that is kept
Landing(w, d) == /\ Check("C27.landing", \E D \in {Landings(w, d)} : \E i \in 1..Len(D) : MNear(Ev.next, D[i], "1e-6"))
                 /\ dw' = [w EXCEPT !.next = Ev.next]
HPar == IsEvent("Par") /\ par' = Ev.p /\ UNCHANGED <<robotVars, geomVars, steps, sups, hum, wt, dw>>
DReset == /\ IsEvent("DReset") /\ \E w \in {StartWalk(Ev.support)} : Check("C27.start", SameWalk(w)) /\ Landing(w, <<0, 0, 0>>)
          /\ UNCHANGED par /\ OnlyDummy
DNext == /\ IsEvent("DNext") /\ \E w \in {Landed(dw)} : Check("C27.step", SameWalk(w) /\ VNear(Ev.asked, Ev.d, "1e-9")) /\ Landing(w, Ev.d)
         /\ UNCHANGED par /\ OnlyDummy
DMove == /\ IsEvent("DMove")
         /\ \E w \in {MovedWalk(dw, Ev.T)} : /\ Check("C27.move", SameWalk(w) /\ MNear(Ev.next, w.next, "1e-6"))
                                             /\ Check("C27.support", MNear(Ev.support, SupportFoot(w).T, "1e-6"))
                                             /\ dw' = w
         /\ UNCHANGED par /\ OnlyDummy
\* after enough updates at phase t the feet and the trunk are where the walk says; planning is not affected
DUpdate == /\ Event("DUpdate")
           /\ Check("C27.step", SameWalk(dw) /\ MNear(Ev.next, dw.next, "1e-6"))
           /\ Check("C27.lift", NNear(Ev.lift, Lift(Ev.t), "1e-6"))
           /\ Ev.settled => \E F \in {FeetAt(dw, Ev.t)} :
                Check("C27.follows", MNear(Ev.robot_left, F.L, "5e-3") /\ MNear(Ev.robot_right, F.R, "5e-3") /\ MNear(Ev.robot_trunk, TrunkAt(dw, Ev.t), "5e-3"))

HNext == \/ HReset \/ HCrash \/ HLoad \/ HStand0 \/ HJoints \/ HVel \/ HBase \/ HUpdate \/ HObserve \/ HSide \/ HSideFrame \/ HSetSupport \/ HFloor \/ HImu
         \/ HPose \/ HStanding \/ HComVel \/ HDcm \/ HTorques \/ WInit \/ WUpdate \/ WObserve \/ WRemove \/ WReach \/ WReached
         \/ HPar \/ DReset \/ DNext \/ DMove \/ DUpdate
TraceSpec == TraceStart /\ WalkInit /\ rob = <<>> /\ conf = <<>> /\ lim = <<>> /\ kin = <<>> /\ hum = <<>> /\ wt = <<>> /\ dw = <<>> /\ [][HNext]_<<humVars, l>>
=============================================================================
