import tlc2.value.impl.*;
import tlc2.value.IValue;

/**
 * TLC evaluation of the operators of spec/Num.tla.
 *
 * A real number is either a TLA+ integer or a decimal string ("0.25"); a vector is a sequence of reals; a matrix is a
 * sequence of rows. Operations on integers stay integers, so that the same formulas are evaluated exactly on the small
 * integer models and on the decimal values recorded from the implementation.
 */
public class Num
{
  // ---- conversions -------------------------------------------------------------------------------------------------
  private static double d(Value v)
  {
    if (v instanceof IntValue)
      return ((IntValue)v).val;
    if (v instanceof StringValue)
      return Double.parseDouble(((StringValue)v).val.toString());
    if (v instanceof BoolValue)
      return ((BoolValue)v).val ? 1 : 0;
    throw new RuntimeException("Num: not a number: " + v);
  }

  private static Value[] seq(Value v)
  {
    Value t = v.toTuple();
    if (t == null)
      throw new RuntimeException("Num: not a sequence: " + v);
    return ((TupleValue)t).elems;
  }

  private static double[] vec(Value v)
  {
    Value[] e = seq(v);
    double[] r = new double[e.length];
    for (int i = 0; i < e.length; i++)
      r[i] = d(e[i]);
    return r;
  }

  private static double[][] mat(Value v)
  {
    Value[] e = seq(v);
    double[][] r = new double[e.length][];
    for (int i = 0; i < e.length; i++)
      r[i] = vec(e[i]);
    return r;
  }

  private static boolean isInt(Value v)
  {
    return v instanceof IntValue;
  }

  private static boolean intVec(Value v)
  {
    for (Value e : seq(v))
      if (!isInt(e))
        return false;
    return true;
  }

  private static boolean intMat(Value v)
  {
    for (Value e : seq(v))
      if (!intVec(e))
        return false;
    return true;
  }

  private static Value num(double x, boolean ints)
  {
    if (ints && x == Math.rint(x) && Math.abs(x) < 2e9)
      return IntValue.gen((int)x);
    return new StringValue(Double.toString(x));
  }

  private static Value tup(double[] x, boolean ints)
  {
    Value[] r = new Value[x.length];
    for (int i = 0; i < x.length; i++)
      r[i] = num(x[i], ints);
    return new TupleValue(r);
  }

  private static Value tup2(double[][] x, boolean ints)
  {
    Value[] r = new Value[x.length];
    for (int i = 0; i < x.length; i++)
      r[i] = tup(x[i], ints);
    return new TupleValue(r);
  }

  private static Value bool(boolean b)
  {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static boolean near(double a, double b, double tol)
  {
    if (Double.isNaN(a) || Double.isNaN(b))
      return false;
    if (a == b)
      return true;
    return Math.abs(a - b) <= tol * (1 + Math.max(Math.abs(a), Math.abs(b)));
  }

  // ---- scalars -----------------------------------------------------------------------------------------------------
  public static Value NAdd(Value a, Value b) { return num(d(a) + d(b), isInt(a) && isInt(b)); }
  public static Value NSub(Value a, Value b) { return num(d(a) - d(b), isInt(a) && isInt(b)); }
  public static Value NMul(Value a, Value b) { return num(d(a) * d(b), isInt(a) && isInt(b)); }
  public static Value NDiv(Value a, Value b) { return num(d(a) / d(b), isInt(a) && isInt(b)); }
  public static Value NNeg(Value a) { return num(-d(a), isInt(a)); }
  public static Value NAbs(Value a) { return num(Math.abs(d(a)), isInt(a)); }
  public static Value NMax(Value a, Value b) { return d(a) >= d(b) ? a : b; }
  public static Value NMin(Value a, Value b) { return d(a) <= d(b) ? a : b; }
  public static Value NLe(Value a, Value b) { return bool(d(a) <= d(b)); }
  public static Value NLt(Value a, Value b) { return bool(d(a) < d(b)); }
  public static Value NLeTol(Value a, Value b, Value tol) { return bool(d(a) <= d(b) + d(tol) * (1 + Math.min(Math.abs(d(b)), Math.abs(d(a))))); }
  public static Value NLeAbs(Value a, Value b, Value tol) { return bool(d(a) <= d(b) + d(tol)); }
  public static Value NNear(Value a, Value b, Value tol) { return bool(near(d(a), d(b), d(tol))); }
  public static Value NNearAbs(Value a, Value b, Value tol) { return bool(d(a) == d(b) || Math.abs(d(a) - d(b)) <= d(tol)); }
  public static Value NSqrt(Value a) { return num(Math.sqrt(d(a)), isInt(a)); }
  public static Value NSin(Value a) { return num(Math.sin(d(a)), false); }
  public static Value NCos(Value a) { return num(Math.cos(d(a)), false); }
  public static Value NExp(Value a) { return num(Math.exp(d(a)), false); }
  public static Value NLog(Value a) { return num(Math.log(d(a)), false); }
  public static Value NAtan2(Value y, Value x) { return num(Math.atan2(d(y), d(x)), false); }
  public static Value NAcos(Value a) { return num(Math.acos(Math.max(-1, Math.min(1, d(a)))), false); }
  public static Value NFloor(Value a) { return IntValue.gen((int)Math.floor(d(a))); }
  public static Value NFinite(Value a) { double x = d(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value NWrap(Value a) { double x = d(a); return num(Math.atan2(Math.sin(x), Math.cos(x)), false); }
  public static Value NPow(Value a, Value n) { return num(Math.pow(d(a), d(n)), isInt(a)); }

  // ---- vectors -----------------------------------------------------------------------------------------------------
  private static void same(double[] x, double[] y)
  {
    if (x.length != y.length)
      throw new RuntimeException("Num: sizes differ " + x.length + " " + y.length);
  }

  public static Value VAdd(Value a, Value b)
  {
    double[] x = vec(a), y = vec(b);
    same(x, y);
    for (int i = 0; i < x.length; i++)
      x[i] += y[i];
    return tup(x, intVec(a) && intVec(b));
  }

  public static Value VSub(Value a, Value b)
  {
    double[] x = vec(a), y = vec(b);
    same(x, y);
    for (int i = 0; i < x.length; i++)
      x[i] -= y[i];
    return tup(x, intVec(a) && intVec(b));
  }

  public static Value VScale(Value s, Value a)
  {
    double k = d(s);
    double[] x = vec(a);
    for (int i = 0; i < x.length; i++)
      x[i] *= k;
    return tup(x, isInt(s) && intVec(a));
  }

  public static Value VDot(Value a, Value b)
  {
    double[] x = vec(a), y = vec(b);
    same(x, y);
    double s = 0;
    for (int i = 0; i < x.length; i++)
      s += x[i] * y[i];
    return num(s, intVec(a) && intVec(b));
  }

  public static Value VNorm(Value a)
  {
    double s = 0;
    for (double v : vec(a))
      s += v * v;
    return num(Math.sqrt(s), false);
  }

  public static Value VMaxAbs(Value a)
  {
    double s = 0;
    for (double v : vec(a))
      s = Double.isNaN(v) ? Double.NaN : Math.max(s, Math.abs(v));
    return num(s, intVec(a));
  }

  public static Value VSum(Value a)
  {
    double s = 0;
    for (double v : vec(a))
      s += v;
    return num(s, intVec(a));
  }

  public static Value VCross(Value a, Value b)
  {
    double[] x = vec(a), y = vec(b);
    return tup(new double[] { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] },
               intVec(a) && intVec(b));
  }

  private static double scale(double[] x)
  {
    double s = 0;
    for (double v : x)
      s = Math.max(s, Math.abs(v));
    return s;
  }

  /** Same size, and the largest difference is at most tol * (1 + largest magnitude). */
  public static Value VNear(Value a, Value b, Value tol)
  {
    double[] x = vec(a), y = vec(b);
    if (x.length != y.length)
      return bool(false);
    double s = d(tol) * (1 + Math.max(scale(x), scale(y)));
    for (int i = 0; i < x.length; i++)
      if (!(Math.abs(x[i] - y[i]) <= s) && x[i] != y[i])
        return bool(false);
    return bool(true);
  }

  public static Value VNearAbs(Value a, Value b, Value tol)
  {
    double[] x = vec(a), y = vec(b);
    if (x.length != y.length)
      return bool(false);
    for (int i = 0; i < x.length; i++)
      if (!(Math.abs(x[i] - y[i]) <= d(tol)) && x[i] != y[i])
        return bool(false);
    return bool(true);
  }

  /** a[i] <= b[i] + tol for every i. */
  public static Value VLe(Value a, Value b, Value tol)
  {
    double[] x = vec(a), y = vec(b);
    if (x.length != y.length)
      return bool(false);
    for (int i = 0; i < x.length; i++)
      if (!(x[i] <= y[i] + d(tol)))
        return bool(false);
    return bool(true);
  }

  public static Value VZero(Value n) { return tup(new double[((IntValue)n).val], true); }

  public static Value VFinite(Value a)
  {
    for (double v : vec(a))
      if (Double.isNaN(v) || Double.isInfinite(v))
        return bool(false);
    return bool(true);
  }

  // ---- matrices ----------------------------------------------------------------------------------------------------
  public static Value MV(Value m, Value v)
  {
    double[][] A = mat(m);
    double[] x = vec(v);
    double[] r = new double[A.length];
    for (int i = 0; i < A.length; i++)
    {
      same(A[i], x);
      for (int j = 0; j < x.length; j++)
        r[i] += A[i][j] * x[j];
    }
    return tup(r, intMat(m) && intVec(v));
  }

  /** A^T y, for a matrix with n columns (n is given because A may have no rows). */
  public static Value MTV(Value m, Value v, Value n)
  {
    double[][] A = mat(m);
    double[] y = vec(v);
    double[] r = new double[((IntValue)n).val];
    if (A.length != y.length)
      throw new RuntimeException("Num: MTV sizes differ");
    for (int i = 0; i < A.length; i++)
    {
      same(A[i], r);
      for (int j = 0; j < r.length; j++)
        r[j] += A[i][j] * y[i];
    }
    return tup(r, intMat(m) && intVec(v));
  }

  private static double[][] mul(double[][] A, double[][] B)
  {
    int n = B.length == 0 ? 0 : B[0].length;
    double[][] r = new double[A.length][n];
    for (int i = 0; i < A.length; i++)
    {
      if (A[i].length != B.length)
        throw new RuntimeException("Num: MM sizes differ");
      for (int k = 0; k < B.length; k++)
        for (int j = 0; j < n; j++)
          r[i][j] += A[i][k] * B[k][j];
    }
    return r;
  }

  public static Value MM(Value a, Value b) { return tup2(mul(mat(a), mat(b)), intMat(a) && intMat(b)); }

  private static double[][] tr(double[][] A)
  {
    int n = A.length == 0 ? 0 : A[0].length;
    double[][] r = new double[n][A.length];
    for (int i = 0; i < A.length; i++)
      for (int j = 0; j < n; j++)
        r[j][i] = A[i][j];
    return r;
  }

  public static Value MT(Value a) { return tup2(tr(mat(a)), intMat(a)); }

  public static Value MAdd(Value a, Value b)
  {
    double[][] x = mat(a), y = mat(b);
    if (x.length != y.length)
      throw new RuntimeException("Num: MAdd sizes differ");
    for (int i = 0; i < x.length; i++)
    {
      same(x[i], y[i]);
      for (int j = 0; j < x[i].length; j++)
        x[i][j] += y[i][j];
    }
    return tup2(x, intMat(a) && intMat(b));
  }

  public static Value MScale(Value s, Value a)
  {
    double[][] x = mat(a);
    for (double[] row : x)
      for (int j = 0; j < row.length; j++)
        row[j] *= d(s);
    return tup2(x, isInt(s) && intMat(a));
  }

  public static Value MNear(Value a, Value b, Value tol)
  {
    double[][] x = mat(a), y = mat(b);
    if (x.length != y.length)
      return bool(false);
    double s = 0;
    for (int i = 0; i < x.length; i++)
    {
      if (x[i].length != y[i].length)
        return bool(false);
      s = Math.max(s, Math.max(scale(x[i]), scale(y[i])));
    }
    s = d(tol) * (1 + s);
    for (int i = 0; i < x.length; i++)
      for (int j = 0; j < x[i].length; j++)
        if (!(Math.abs(x[i][j] - y[i][j]) <= s))
          return bool(false);
    return bool(true);
  }

  public static Value MId(Value n)
  {
    int k = ((IntValue)n).val;
    double[][] r = new double[k][k];
    for (int i = 0; i < k; i++)
      r[i][i] = 1;
    return tup2(r, true);
  }

  /** Symmetric within tol and every Cholesky pivot positive. */
  public static Value MPosDef(Value a, Value tol)
  {
    double[][] A = mat(a);
    int n = A.length;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (!near(A[i][j], A[j][i], d(tol)))
          return bool(false);
    double[][] L = new double[n][n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++)
      {
        double s = A[i][j];
        for (int k = 0; k < j; k++)
          s -= L[i][k] * L[j][k];
        if (i == j)
        {
          if (!(s > 0))
            return bool(false);
          L[i][i] = Math.sqrt(s);
        }
        else
          L[i][j] = s / L[j][j];
      }
    return bool(true);
  }

  /** 3x3 rotation matrix (orthonormal, determinant 1) within tol. */
  public static Value MIsRot(Value a, Value tol)
  {
    double[][] R = mat(a);
    if (R.length != 3 || R[0].length != 3)
      return bool(false);
    double[][] P = mul(R, tr(R));
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (!(Math.abs(P[i][j] - (i == j ? 1 : 0)) <= d(tol)))
          return bool(false);
    return bool(Math.abs(det3(R) - 1) <= 10 * d(tol));
  }

  private static double det3(double[][] R)
  {
    return R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) +
           R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]);
  }

  /** exp of a rotation vector. */
  public static Value RotExp(Value v)
  {
    double[] w = vec(v);
    double t = Math.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
    double a = t < 1e-12 ? 1 : Math.sin(t) / t, b = t < 1e-6 ? 0.5 : (1 - Math.cos(t)) / (t * t);
    double[][] K = { { 0, -w[2], w[1] }, { w[2], 0, -w[0] }, { -w[1], w[0], 0 } };
    double[][] K2 = mul(K, K);
    double[][] R = new double[3][3];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        R[i][j] = (i == j ? 1 : 0) + a * K[i][j] + b * K2[i][j];
    return tup2(R, false);
  }

  /** Rotation vector of a rotation matrix (angle below pi). */
  public static Value RotLog(Value m)
  {
    double[][] R = mat(m);
    double[] w = { R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1] };
    double s = Math.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) / 2, c = (R[0][0] + R[1][1] + R[2][2] - 1) / 2;
    double t = Math.atan2(s, c);
    double k = s < 1e-9 ? 0.5 : t / (2 * s);
    for (int i = 0; i < 3; i++)
      w[i] *= k;
    return tup(w, false);
  }

  /** exp of a square matrix (scaling and squaring of the Taylor series). */
  public static Value MExp(Value m)
  {
    double[][] A = mat(m);
    int n = A.length;
    double s = 0;
    for (double[] r : A)
      s = Math.max(s, scale(r) * n);
    int k = 0;
    while (s > 0.25)
    {
      s /= 2;
      k++;
    }
    double f = Math.pow(2, -k);
    for (double[] r : A)
      for (int j = 0; j < n; j++)
        r[j] *= f;
    double[][] E = new double[n][n], T = new double[n][n];
    for (int i = 0; i < n; i++)
      E[i][i] = T[i][i] = 1;
    for (int p = 1; p < 30; p++)
    {
      T = mul(T, A);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
          T[i][j] /= p;
          E[i][j] += T[i][j];
        }
    }
    for (int i = 0; i < k; i++)
      E = mul(E, E);
    return tup2(E, false);
  }

  // ---- rigid transformations (4x4 matrices) ------------------------------------------------------------------------
  public static Value FInv(Value a)
  {
    double[][] T = mat(a);
    double[][] r = new double[4][4];
    for (int i = 0; i < 3; i++)
    {
      for (int j = 0; j < 3; j++)
      {
        r[i][j] = T[j][i];
        r[i][3] -= T[j][i] * T[j][3];
      }
    }
    r[3][3] = 1;
    return tup2(r, intMat(a));
  }

  public static Value FRot(Value a)
  {
    double[][] T = mat(a);
    double[][] r = new double[3][3];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        r[i][j] = T[i][j];
    return tup2(r, intMat(a));
  }

  public static Value FPos(Value a)
  {
    double[][] T = mat(a);
    return tup(new double[] { T[0][3], T[1][3], T[2][3] }, intMat(a));
  }
}
