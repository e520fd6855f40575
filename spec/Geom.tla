-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Geometry helpers (src/placo/tools/segment.cpp, utils.cpp,               *)
(* axises_mask.cpp, directions.cpp).                                       *)
(*                                                                         *)
(* State: the axes mask being configured (the other helpers are functions).*)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

VARIABLES mask   \* [axes |-> sequence of 1..3, frame, Rl, Rc]
geomVars == <<mask>>
I3 == MId(3)
GeomInit == mask = [axes |-> <<1, 2, 3>>, frame |-> "task", Rl |-> I3, Rc |-> I3]

\* ---- plane segments [a, b] (sequences of two reals)
Cross2(v, w) == NSub(NMul(v[1], w[2]), NMul(v[2], w[1]))
Dir(s) == VSub(s.b, s.a)
Parallel(s, o) == Cross2(Dir(s), Dir(o)) = 0
Aligned(s, p) == Cross2(Dir(s), VSub(p, s.a)) = 0
SegAligned(s, o) == Aligned(s, o.a) /\ Aligned(s, o.b)
Between(x, lo, hi) == NLe(lo, x) /\ NLe(x, hi)
InSegment(s, p) == Aligned(s, p) /\ Between(VDot(Dir(s), VSub(p, s.a)), 0, VDot(Dir(s), Dir(s)))
\* coordinates along s and o of the intersection of their lines, multiplied by |Det|
Det(s, o) == Cross2(Dir(s), Dir(o))
Sgn(s, o) == IF NLe(0, Det(s, o)) THEN 1 ELSE -1
NumS(s, o) == NMul(Sgn(s, o), Cross2(VSub(o.a, s.a), Dir(o)))
NumO(s, o) == NMul(Sgn(s, o), Cross2(VSub(o.a, s.a), Dir(s)))
ADet(s, o) == NMul(Sgn(s, o), Det(s, o))
\* the line of o meets segment s; the half line of o from its start meets segment s; the segments meet
LineThrough(s, o) == Between(NumS(s, o), 0, ADet(s, o))
HalfLineThrough(s, o) == LineThrough(s, o) /\ NLe(0, NumO(s, o))
Intersects(s, o) == LineThrough(s, o) /\ LineThrough(o, s)
\* the intersection of the lines, multiplied by |Det|
Meet(s, o) == VAdd(VScale(ADet(s, o), s.a), VScale(NumS(s, o), Dir(s)))

\* ---- axes masks
AxisOf(c) == CASE c \in {"x", "X"} -> 1 [] c \in {"y", "Y"} -> 2 [] c \in {"z", "Z"} -> 3
ValidAxes(cs) == \A i \in 1..Len(cs) : cs[i] \in {"x", "y", "z", "X", "Y", "Z"}
ValidFrame(f) == f \in {"task", "world", "local", "custom"}
SetAxes(cs, f) == mask' = [mask EXCEPT !.axes = [i \in 1..Len(cs) |-> AxisOf(cs[i])], !.frame = IF f = "world" THEN "task" ELSE f]
SetRotations(rl, rc) == mask' = [mask EXCEPT !.Rl = rl, !.Rc = rc]
Masked(M) == LET R == CASE mask.frame = "local" -> MM(mask.Rl, M) [] mask.frame = "custom" -> MM(mask.Rc, M) [] OTHER -> M
             IN [i \in 1..Len(mask.axes) |-> R[mask.axes[i]]]

\* ---- frames
RotZ(yaw) == <<<<NCos(yaw), NNeg(NSin(yaw)), 0>>, <<NSin(yaw), NCos(yaw), 0>>, <<0, 0, 1>>>>
Yaw(R) == NAtan2(R[2][1], R[1][1])
Frame(R, p) == <<Append(R[1], p[1]), Append(R[2], p[2]), Append(R[3], p[3]), <<0, 0, 0, 1>>>>
Flatten(T) == Frame(RotZ(Yaw(FRot(T))), <<T[1][4], T[2][4], 0>>)
Interpolate(A, B, s) ==
  Frame(MM(FRot(A), RotExp(VScale(s, RotLog(MM(MT(FRot(A)), FRot(B)))))),
        VAdd(VScale(NSub(1, s), FPos(A)), VScale(s, FPos(B))))
Unit(k) == [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]
=============================================================================
