// TLC module override: arbitrary-precision evaluation of the operators of BigInt.tla.
// Integers are TLA+ integers or decimal strings; results of B* operators are decimal strings, results of
// the modular M* operators have the kind (integer or string) of the modulus.
import tlc2.value.impl.*;
import util.Assert;
import java.math.BigInteger;

public class BigInt {
  static BigInteger g(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    Assert.fail("BigInt: not an integer: " + v);
    return null;
  }
  static Value s(BigInteger b) { return new StringValue(b.toString()); }
  static Value k(BigInteger b, Value m) { return m instanceof IntValue ? IntValue.gen(b.intValueExact()) : s(b); }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) Assert.fail("BigInt: not a sequence: " + v);
    return t.elems;
  }
  public static Value BAdd(Value a, Value b) { return s(g(a).add(g(b))); }
  public static Value BSub(Value a, Value b) { return s(g(a).subtract(g(b))); }
  public static Value BMul(Value a, Value b) { return s(g(a).multiply(g(b))); }
  public static Value BNeg(Value a) { return s(g(a).negate()); }
  static BigInteger fdiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) return qr[0].subtract(BigInteger.ONE);
    return qr[0];
  }
  public static Value BDiv(Value a, Value b) { return s(fdiv(g(a), g(b))); }
  public static Value BMod(Value a, Value b) { return s(g(a).mod(g(b))); }
  public static Value BPow(Value a, Value n) { return s(g(a).pow(g(n).intValueExact())); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(g(a).compareTo(g(b))); }
  public static Value BIsInt(final Value a) { return (a instanceof tlc2.value.impl.IntValue) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BEq(Value a, Value b) { return g(a).equals(g(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BStr(Value a) { return s(g(a)); }
  public static Value BInt(Value a) { return IntValue.gen(g(a).intValueExact()); }
  public static Value BBits(Value a) { return IntValue.gen(g(a).abs().bitLength()); }
  public static Value BSum(Value v) { BigInteger r = BigInteger.ZERO; for (Value x : seq(v)) r = r.add(g(x)); return s(r); }
  public static Value BDot(Value u, Value v) {
    Value[] a = seq(u), b = seq(v); BigInteger r = BigInteger.ZERO;
    if (a.length != b.length) Assert.fail("BDot: lengths differ");
    for (int i = 0; i < a.length; i++) r = r.add(g(a[i]).multiply(g(b[i])));
    return s(r);
  }
  public static Value Red(Value a, Value m) { return k(g(a).mod(g(m)), m); }
  public static Value MAdd(Value a, Value b, Value m) { return k(g(a).add(g(b)).mod(g(m)), m); }
  public static Value MSub(Value a, Value b, Value m) { return k(g(a).subtract(g(b)).mod(g(m)), m); }
  public static Value MMul(Value a, Value b, Value m) { return k(g(a).multiply(g(b)).mod(g(m)), m); }
  public static Value MInv(Value a, Value m) { return k(g(a).modInverse(g(m)), m); }
  public static Value MPow(Value a, Value n, Value m) { return k(g(a).modPow(g(n), g(m)), m); }
  public static Value MDot(Value u, Value v, Value m) {
    Value[] a = seq(u), b = seq(v); BigInteger M = g(m);
    if (a.length != b.length) Assert.fail("MDot: lengths differ");
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(g(a[i]).multiply(g(b[i])));
    return k(r.mod(M), m);
  }
  // sum over i of cs[i] * vs[i], vs a sequence of vectors of length len
  public static Value MLin(Value cs, Value vs, Value len, Value m) {
    Value[] c = seq(cs), v = seq(vs); int n = ((IntValue) len).val; BigInteger M = g(m);
    if (m instanceof IntValue && c.length == v.length) {
      long q = M.longValue(); long[] r = new long[n];
      for (int i = 0; i < c.length; i++) {
        long x = g(c[i]).mod(M).longValue(); if (x == 0) continue;
        Value[] w = seq(v[i]);
        if (w.length != n) Assert.fail("MLin: vector of wrong length");
        for (int j = 0; j < n; j++) r[j] = (r[j] + x * (w[j] instanceof IntValue ? (((IntValue) w[j]).val % q + q) % q : g(w[j]).mod(M).longValue())) % q;
      }
      Value[] o = new Value[n];
      for (int j = 0; j < n; j++) o[j] = IntValue.gen((int) r[j]);
      return new TupleValue(o);
    }
    if (c.length != v.length) Assert.fail("MLin: lengths differ");
    BigInteger[] r = new BigInteger[n];
    for (int j = 0; j < n; j++) r[j] = BigInteger.ZERO;
    for (int i = 0; i < c.length; i++) {
      BigInteger x = g(c[i]);
      Value[] w = seq(v[i]);
      if (w.length != n) Assert.fail("MLin: vector of wrong length");
      if (x.signum() == 0) continue;
      for (int j = 0; j < n; j++) r[j] = r[j].add(x.multiply(g(w[j])));
    }
    Value[] o = new Value[n];
    for (int j = 0; j < n; j++) o[j] = k(r[j].mod(M), m);
    return new TupleValue(o);
  }
  public static Value MMatVec(Value A, Value v, Value m) {
    Value[] a = seq(A); Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) o[i] = MDot(a[i], v, m);
    return new TupleValue(o);
  }
  static BigInteger[][] mat(Value A) {
    Value[] a = seq(A); BigInteger[][] x = new BigInteger[a.length][];
    for (int i = 0; i < a.length; i++) { Value[] r = seq(a[i]); x[i] = new BigInteger[r.length]; for (int j = 0; j < r.length; j++) x[i][j] = g(r[j]); }
    return x;
  }
  public static Value MMatMul(Value A, Value B, Value m) {
    BigInteger[][] a = mat(A), b = mat(B); BigInteger M = g(m);
    int c = b.length == 0 ? 0 : b[0].length;
    Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) {
      Value[] row = new Value[c];
      if (a[i].length != b.length) Assert.fail("MMatMul: shapes differ");
      for (int j = 0; j < c; j++) { BigInteger r = BigInteger.ZERO; for (int t = 0; t < b.length; t++) r = r.add(a[i][t].multiply(b[t][j])); row[j] = k(r.mod(M), m); }
      o[i] = new TupleValue(row);
    }
    return new TupleValue(o);
  }
  public static Value BMatMul(Value A, Value B) {
    BigInteger[][] a = mat(A), b = mat(B);
    int c = b.length == 0 ? 0 : b[0].length;
    Value[] o = new Value[a.length];
    for (int i = 0; i < a.length; i++) {
      Value[] row = new Value[c];
      if (a[i].length != b.length) Assert.fail("BMatMul: shapes differ");
      for (int j = 0; j < c; j++) { BigInteger r = BigInteger.ZERO; for (int t = 0; t < b.length; t++) r = r.add(a[i][t].multiply(b[t][j])); row[j] = s(r); }
      o[i] = new TupleValue(row);
    }
    return new TupleValue(o);
  }
  static long pw(long a, long e, long m) { long r = 1 % m; a %= m; while (e > 0) { if ((e & 1) == 1) r = r * a % m; a = a * a % m; e >>= 1; } return r; }
  static long[][] lmat(Value A, long m) {
    Value[] a = seq(A); long[][] x = new long[a.length][]; BigInteger M = BigInteger.valueOf(m);
    for (int i = 0; i < a.length; i++) { Value[] r = seq(a[i]); x[i] = new long[r.length]; for (int j = 0; j < r.length; j++)
      x[i][j] = r[j] instanceof IntValue ? (((((IntValue) r[j]).val) % m) + m) % m : g(r[j]).mod(M).longValue(); }
    return x;
  }
  // rank over the field with m elements
  public static Value MRank(Value A, Value m) {
    if (g(m).bitLength() <= 31) {
      long M = g(m).longValue();
      long[][] a = lmat(A, M);
      int r = 0, rows = a.length, cols = rows == 0 ? 0 : a[0].length;
      for (int j = 0; j < cols && r < rows; j++) {
        int p = r; while (p < rows && a[p][j] == 0) p++;
        if (p == rows) continue;
        long[] t = a[p]; a[p] = a[r]; a[r] = t;
        long inv = BigInteger.valueOf(a[r][j]).modInverse(g(m)).longValue();
        for (int i = r + 1; i < rows; i++) if (a[i][j] != 0) {
          long f = (M - a[i][j] * inv % M) % M;
          for (int q = j; q < cols; q++) if (a[r][q] != 0) a[i][q] = (a[i][q] + f * a[r][q]) % M;
        }
        r++;
      }
      return IntValue.gen(r);
    }
    BigInteger[][] a = mat(A); BigInteger M = g(m);
    int r = 0, rows = a.length, cols = rows == 0 ? 0 : a[0].length;
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) a[i][j] = a[i][j].mod(M);
    for (int j = 0; j < cols && r < rows; j++) {
      int p = r; while (p < rows && a[p][j].signum() == 0) p++;
      if (p == rows) continue;
      BigInteger[] t = a[p]; a[p] = a[r]; a[r] = t;
      BigInteger inv = a[r][j].modInverse(M);
      for (int i = r + 1; i < rows; i++) if (a[i][j].signum() != 0) {
        BigInteger f = a[i][j].multiply(inv).mod(M);
        for (int q = j; q < cols; q++) a[i][q] = a[i][q].subtract(f.multiply(a[r][q])).mod(M);
      }
      r++;
    }
    return IntValue.gen(r);
  }
  // X with A X = I modulo q, A of full row rank modulo the prime p (an empty sequence otherwise)
  public static Value MRightInv(Value A, Value p, Value q) {
    int m = seq(A).length; if (m == 0) return new TupleValue(new Value[0]);
    int n = seq(seq(A)[0]).length; BigInteger Q = g(q), P = g(p);
    int[] piv = new int[m];
    if (Q.bitLength() <= 31) {
      long M = Q.longValue(), pp = P.longValue();
      long[][] a = lmat(A, M), b = new long[m][m];
      for (int i = 0; i < m; i++) b[i][i] = 1 % M;
      int r = 0;
      for (int j = 0; j < n && r < m; j++) {
        int t = r; while (t < m && a[t][j] % pp == 0) t++;
        if (t == m) continue;
        long[] w = a[t]; a[t] = a[r]; a[r] = w; w = b[t]; b[t] = b[r]; b[r] = w;
        long inv = BigInteger.valueOf(a[r][j]).modInverse(Q).longValue();
        for (int c = 0; c < n; c++) a[r][c] = a[r][c] * inv % M;
        for (int c = 0; c < m; c++) b[r][c] = b[r][c] * inv % M;
        for (int i = 0; i < m; i++) if (i != r && a[i][j] != 0) {
          long f = M - a[i][j];
          for (int c = 0; c < n; c++) if (a[r][c] != 0) a[i][c] = (a[i][c] + f * a[r][c]) % M;
          for (int c = 0; c < m; c++) if (b[r][c] != 0) b[i][c] = (b[i][c] + f * b[r][c]) % M;
        }
        piv[r++] = j;
      }
      if (r < m) return new TupleValue(new Value[0]);
      long[][] x = new long[n][m];
      for (int i = 0; i < m; i++) x[piv[i]] = b[i];
      Value[] o = new Value[n];
      for (int i = 0; i < n; i++) { Value[] row = new Value[m]; for (int j = 0; j < m; j++) row[j] = q instanceof IntValue ? IntValue.gen((int) x[i][j]) : s(BigInteger.valueOf(x[i][j])); o[i] = new TupleValue(row); }
      return new TupleValue(o);
    }
    BigInteger[][] a = mat(A), b = new BigInteger[m][m];
    for (int i = 0; i < m; i++) { for (int j = 0; j < m; j++) b[i][j] = i == j ? BigInteger.ONE : BigInteger.ZERO; for (int j = 0; j < n; j++) a[i][j] = a[i][j].mod(Q); }
    int r = 0;
    for (int j = 0; j < n && r < m; j++) {
      int t = r; while (t < m && a[t][j].mod(P).signum() == 0) t++;
      if (t == m) continue;
      BigInteger[] w = a[t]; a[t] = a[r]; a[r] = w; w = b[t]; b[t] = b[r]; b[r] = w;
      BigInteger inv = a[r][j].modInverse(Q);
      for (int c = 0; c < n; c++) a[r][c] = a[r][c].multiply(inv).mod(Q);
      for (int c = 0; c < m; c++) b[r][c] = b[r][c].multiply(inv).mod(Q);
      for (int i = 0; i < m; i++) if (i != r && a[i][j].signum() != 0) {
        BigInteger f = a[i][j];
        for (int c = 0; c < n; c++) if (a[r][c].signum() != 0) a[i][c] = a[i][c].subtract(f.multiply(a[r][c])).mod(Q);
        for (int c = 0; c < m; c++) if (b[r][c].signum() != 0) b[i][c] = b[i][c].subtract(f.multiply(b[r][c])).mod(Q);
      }
      piv[r++] = j;
    }
    if (r < m) return new TupleValue(new Value[0]);
    Value[] o = new Value[n];
    Value zero = k(BigInteger.ZERO, q);
    for (int i = 0; i < n; i++) { Value[] row = new Value[m]; for (int j = 0; j < m; j++) row[j] = zero; o[i] = new TupleValue(row); }
    for (int i = 0; i < m; i++) { Value[] row = new Value[m]; for (int j = 0; j < m; j++) row[j] = k(b[i][j], q); o[piv[i]] = new TupleValue(row); }
    return new TupleValue(o);
  }
}
