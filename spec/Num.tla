-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers, vectors, matrices and rigid transformations used by all the    *)
(* specifications.                                                         *)
(*                                                                         *)
(* A real is an integer or a decimal string ("0.25", as recorded from the  *)
(* implementation); a vector is a sequence of reals, a matrix a sequence   *)
(* of rows, a rigid transformation a 4x4 matrix.  The definitions below    *)
(* give the meaning on integers; harness/java/Num.java makes TLC evaluate  *)
(* them on decimals as well (integers stay integers).  Operators without   *)
(* an integer meaning are only given their real meaning in a comment.      *)
(* Every operator here must have an override, the harness checks it.       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Undef == CHOOSE x : x \notin Int

\* ---- scalars
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == Undef                            \* a / b
NNeg(a) == 0 - a
NAbs(a) == IF a < 0 THEN 0 - a ELSE a
NMax(a, b) == IF a >= b THEN a ELSE b
NMin(a, b) == IF a <= b THEN a ELSE b
NLe(a, b) == a <= b
NLt(a, b) == a < b
NLeTol(a, b, tol) == a <= b + tol * (1 + NMin(NAbs(a), NAbs(b)))
NLeAbs(a, b, tol) == a <= b + tol
NNear(a, b, tol) == NAbs(a - b) <= tol * (1 + NMax(NAbs(a), NAbs(b)))
NNearAbs(a, b, tol) == NAbs(a - b) <= tol
NSqrt(a) == CHOOSE r \in 0..a : r * r = a
NSin(a) == Undef                               \* sin, cos, exp, log, acos (clamped to [-1, 1]), atan2(y, x)
NCos(a) == Undef
NExp(a) == Undef
NLog(a) == Undef
NAcos(a) == Undef
NAtan2(y, x) == Undef
NFloor(a) == a
NFinite(a) == TRUE                             \* neither NaN nor infinite
NWrap(a) == Undef                              \* the angle equal to a modulo 2 pi, in [-pi, pi]
RECURSIVE NPow(_, _)
NPow(a, n) == IF n = 0 THEN 1 ELSE a * NPow(a, n - 1)

\* ---- vectors
VAdd(v, w) == [i \in 1..Len(v) |-> v[i] + w[i]]
VSub(v, w) == [i \in 1..Len(v) |-> v[i] - w[i]]
VScale(s, v) == [i \in 1..Len(v) |-> s * v[i]]
RECURSIVE VSum(_)
VSum(v) == IF v = <<>> THEN 0 ELSE Head(v) + VSum(Tail(v))
VDot(v, w) == VSum([i \in 1..Len(v) |-> v[i] * w[i]])
VNorm(v) == NSqrt(VDot(v, v))
RECURSIVE VMaxAbs(_)
VMaxAbs(v) == IF v = <<>> THEN 0 ELSE NMax(NAbs(Head(v)), VMaxAbs(Tail(v)))
VCross(v, w) == <<v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1]>>
VNear(v, w, tol) == /\ Len(v) = Len(w)
                    /\ \A i \in 1..Len(v) : NAbs(v[i] - w[i]) <= tol * (1 + NMax(VMaxAbs(v), VMaxAbs(w)))
VNearAbs(v, w, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : NAbs(v[i] - w[i]) <= tol
VLe(v, w, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : v[i] <= w[i] + tol
VZero(n) == [i \in 1..n |-> 0]
VFinite(v) == TRUE

\* ---- matrices
MV(A, x) == [i \in 1..Len(A) |-> VDot(A[i], x)]
MTV(A, y, n) == [j \in 1..n |-> VSum([i \in 1..Len(A) |-> A[i][j] * y[i]])]   \* A^T y, A has n columns
MT(A) == IF A = <<>> THEN <<>> ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> VSum([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MScale(s, A) == [i \in 1..Len(A) |-> VScale(s, A[i])]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], tol)  \* relative to the largest entry
MPosDef(A, tol) == Undef                       \* symmetric (within tol) positive definite
MIsRot(R, tol) == MNear(MM(R, MT(R)), MId(3), tol)   \* and determinant 1
MExp(A) == Undef                               \* matrix exponential
RotExp(w) == Undef                             \* rotation matrix of a rotation vector
RotLog(R) == Undef                             \* rotation vector (angle < pi) of a rotation matrix

\* ---- rigid transformations
FRot(T) == [i \in 1..3 |-> [j \in 1..3 |-> T[i][j]]]
FPos(T) == <<T[1][4], T[2][4], T[3][4]>>
FInv(T) == [i \in 1..4 |-> [j \in 1..4 |->
              IF i = 4 THEN T[4][j]
              ELSE IF j < 4 THEN T[j][i]
              ELSE 0 - VDot(FPos(T), <<T[1][i], T[2][i], T[3][i]>>)]]
=============================================================================
