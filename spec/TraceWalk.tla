------------------------------ MODULE TraceWalk ------------------------------
EXTENDS Walk, TraceLib
Tol == "1e-7"
Eps == "1e-9"
Event(e) == IsEvent(e) /\ UNCHANGED walkVars
TReset == IsEvent("Reset") /\ par' = <<>> /\ steps' = <<>> /\ sups' = <<>> /\ UNCHANGED geomVars
TCrash == Event("Crash") /\ Report("crash")

TPar == /\ IsEvent("Par") /\ SetPar(Ev.p)
\* durations, evaluated in the state where par is known
TPhases == /\ Event("Phases")
           /\ Check("C23.durations", /\ NNear(Ev.dt, Dt, Eps) /\ Ev.dbl = DoubleSteps /\ Ev.startend = StartEndSteps
                                     /\ NNear(Ev.dbl_duration, NMul(DoubleSteps, Dt), Eps) /\ NNear(Ev.startend_duration, NMul(StartEndSteps, Dt), Eps)
                                     /\ Ev.has = HasDouble)
TClip == /\ Event("Clip")
         /\ Check("C22.clip", VNear(Ev.v, Clip(Ev.kind, Ev.d), Tol) /\ NLe(StepSize(Ev.kind, Ev.v), "1.000000001"))
\* clipping and overlap avoidance of a step made from the given support side
TOverlapClip == /\ Event("OverlapClip")
                /\ LET f == Initial(Other(Ev.side), Planar(0, NDiv(par.feet_spacing, "2.0"), 0), Planar(0, NDiv(par.feet_spacing, "-2.0"), 0))[2]
                       D == TLCEval(ClippedSteps(Ev.kind, f, Ev.d))
                   IN Check("C22.overlap_clip", \E i \in 1..Len(D) : LET d == D[i] IN VNear(Ev.v, <<d[1], d[2], NWrap(d[3])>>, Tol))
SameFoot(f, g) == f.side = g.side /\ MNear(f.T, g.T, Tol) /\ NNear(f.w, g.w, Eps) /\ NNear(f.l, g.l, Eps)
TOpposite == /\ Event("Opposite")
             /\ IF Ev.clipped
                THEN LET D == TLCEval(ClippedSteps("conic", Ev.f, Ev.d)) IN Check("C22.clipped_opposite", \E i \in 1..Len(D) : SameFoot(Ev.g, Opposite(Ev.f, D[i])))
                ELSE Check("C22.opposite", SameFoot(Ev.g, Opposite(Ev.f, Ev.d)))
SameStart(fs, flying, L, R) == LET i == Initial(flying, L, R) IN Len(fs) >= 2 /\ SameFoot(fs[1], i[1]) /\ SameFoot(fs[2], i[2])
\* n steps: all but the last are the asked one (limited), the last one brings the feet together
TRepetitive ==
  /\ IsEvent("Repetitive") /\ SetSteps(Ev.steps)
  /\ LET fs == Ev.steps  n == Len(fs)  m == IF Ev.n > 0 THEN Ev.n ELSE 0 IN
     /\ Check("C22.starts", SameStart(fs, Ev.flying, Ev.L, Ev.R))
     /\ Check("C22.alternates", Alternates(fs))
     /\ Check("C22.count", n = 2 + m)
     /\ Check("C22.repetitive", \A k \in 3..n :
           LET D == TLCEval(ClippedSteps("conic", fs[k - 1], IF k = n THEN <<0, 0, 0>> ELSE Ev.d)) IN \E i \in 1..Len(D) : SameFoot(fs[k], Opposite(fs[k - 1], D[i])))
\* toward a target, until both feet are there (or too many steps)
MaxSteps == 100
\* evaluated per step
Naive(fs, k, goal, win) == NaiveStep(fs[k - 1], goal, win)
TNaive ==
  /\ IsEvent("Naive") /\ SetSteps(Ev.steps)
  /\ LET fs == Ev.steps  n == Len(fs)
         N == TLCEval([k \in 3..n |-> TLCEval(Naive(fs, k, Ev.goal, Ev.win))])
     IN
     /\ Check("C22.starts", SameStart(fs, Ev.flying, Ev.L, Ev.R))
     /\ Check("C22.alternates", Alternates(fs))
     /\ Check("C22.naive", \A k \in 3..n : SameFoot(fs[k], Opposite(fs[k - 1], N[k][1])))
     /\ Check("C22.limits", \A k \in 3..n : NLe(StepSize("ellipsoid", StepBetween(fs[k - 1], fs[k].T)), "1.000001"))
     \* stops as soon as both feet are arrived, and not before
     /\ Check("C22.stops", \/ n = 2 + MaxSteps
                           \/ n >= 4 /\ N[n][3] /\ N[n - 1][3])
     /\ Check("C22.goes_on", n <= 2 + MaxSteps /\ \A k \in 4..(n - 1) : ~(N[k][2] /\ N[k - 1][2]))
     /\ Check("C22.reached", (n < 2 + MaxSteps) => \A k \in {n - 1, n} : MNear(fs[k].T, Ev.goal[fs[k].side], "1e-5"))

\* ---- supports
SameSup(s, e) == /\ Len(s.feet) = Len(e.feet) /\ \A k \in 1..Len(s.feet) : SameFoot(e.feet[k], s.feet[k])
                 /\ e.start = s.start /\ e.end = s.end /\ NNear(e.t, s.t, Eps) /\ NNear(e.el, s.el, Eps) /\ NNear(e.tr, s.tr, Eps)
SameSups(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameSup(a[k], b[k])
TSteps == IsEvent("Steps") /\ SetSteps(Ev.steps)
TMake == /\ IsEvent("Make")
         /\ LET S == TLCEval(MakeSupports(steps, Ev.t, Ev.start, Ev.dbl, Ev.end)) IN
            /\ Check("C23.make", SameSups(S, Ev.sups))
            /\ SetSups(S)
TTruncate == /\ IsEvent("Truncate")
             /\ Check("C23.truncate_refused", Ev.ok = CanTruncate(sups, Ev.n, Ev.close))
             /\ IF CanTruncate(sups, Ev.n, Ev.close) /\ Ev.ok
                THEN LET S == TLCEval(Truncate(sups, Ev.n, Ev.close)) IN
                     /\ Check("C23.truncate", SameSups(S, Ev.sups))
                     /\ SetSups(S)
                ELSE UNCHANGED walkVars
\* everything a support says about itself
TSupport ==
  /\ Event("Support")
  /\ LET s == sups[Ev.k] IN
     /\ Check("C23.both", Ev.both = IsBoth(s))
     /\ Check("C23.side", IF IsBoth(s) THEN ~Ev.side_ok ELSE Ev.side_ok /\ Ev.side = s.feet[1].side)
     /\ Check("C23.frame", MNear(Ev.frame, SupportT(s), "1e-6"))
     /\ Check("C23.footstep", \A side \in {"left", "right"} :
           LET here == {k \in 1..Len(s.feet) : s.feet[k].side = side}  a == Ev.foot[side] IN
           IF here = {} THEN ~a.ok ELSE a.ok /\ MNear(a.T, FootOf(s, side).T, Eps))
     /\ Check("C23.polygon", IsHull(Ev.poly, AllCorners(s), "1e-7"))
     /\ Check("C23.durations", Ev.steps = PhaseSteps(s) /\ NNear(Ev.duration, PhaseDuration(s), Eps))
TOffset == /\ IsEvent("Offset") /\ LET s == sups[Ev.k] IN SetSups([sups EXCEPT ![Ev.k] = TLCEval(Moved(s, LAMBDA T : Shifted(T, Ev.o)))])
\* a foot of a support, or a footstep, placed elsewhere
TPlace == /\ IsEvent("Place") /\ SetSups([sups EXCEPT ![Ev.k].feet[Ev.i].T = Ev.T])
TFoot == /\ Event("Foot")
         /\ Check("C23.foot_polygon", /\ Len(Ev.poly) = 4 /\ IsHull(Ev.poly, Corners(Ev.f, 0), "1e-7"))
TOverlap == /\ Event("Overlap")
            /\ Check("C23.overlap", /\ Overlap(Ev.f, Ev.g, Ev.m, Tie) => Ev.v
                                    /\ Ev.v => Overlap(Ev.f, Ev.g, Ev.m, NNeg(Tie)))
TContains == /\ Event("Contains")
             /\ Check("C23.contains", /\ InPoly(Ev.poly, Ev.p, Tie) => Ev.v
                                      /\ Ev.v => InPoly(Ev.poly, Ev.p, NNeg(Tie)))
TNext == \/ TReset \/ TCrash \/ TPar \/ TPhases \/ TClip \/ TOverlapClip \/ TOpposite \/ TRepetitive \/ TNaive
         \/ TSteps \/ TMake \/ TTruncate \/ TSupport \/ TOffset \/ TPlace \/ TFoot \/ TOverlap \/ TContains
TraceSpec == TraceStart /\ WalkInit /\ [][TNext]_<<walkVars, l>>
=============================================================================
