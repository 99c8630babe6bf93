// TLC module override of PointCount!PCount: the number of projective points over F_(p^r) of a homogeneous equation.
import tlc2.value.impl.*;
import util.Assert;
import java.math.BigInteger;

public class PointCount {
  static final class Field {
    final int p, r, q, Z;              // elements are logarithms 0..q-2; Z = q-1 stands for 0
    final int[] exp, log, zech;
    Field(int p, int r) {
      this.p = p; this.r = r;
      int q = 1;
      for (int i = 0; i < r; i++) q = Math.multiplyExact(q, p);
      this.q = q; Z = q - 1;
      exp = new int[q - 1 == 0 ? 1 : q - 1]; log = new int[q]; zech = new int[q];
      // x is primitive modulo x^r - (c_0 + .. + c_(r-1) x^(r-1)) for some c
      boolean ok = false;
      for (int c = 1; c < q && !ok; c++) {
        java.util.Arrays.fill(log, -1);
        int v = 1, k = 0;
        if (r == 1) { while (log[v] < 0) { log[v] = k; exp[k++] = v; v = (int) ((long) v * c % p); } }
        else {
          while (v != 0 && log[v] < 0) {
            log[v] = k; exp[k++] = v;
            int top = v / (q / p), low = (v % (q / p)) * p, w = 0, b = 1, cc = c;
            for (int i = 0; i < r; i++) { w += b * (int) ((low % p + (long) top * (cc % p)) % p); low /= p; cc /= p; b *= p; }
            v = w;
          }
        }
        ok = k == q - 1 && v == 1;
      }
      if (!ok) Assert.fail("PointCount: no field of order " + q);
      log[0] = Z;
      for (int d = 0; d < q - 1; d++) {   // log(1 + g^d)
        int e = exp[d];
        zech[d] = log[e % p == p - 1 ? e - (p - 1) : e + 1];
      }
      neg1 = p == 2 ? 0 : (q - 1) / 2;
    }
    final int neg1;
    int mul(int a, int b) { if (a == Z || b == Z) return Z; int s = a + b; return s >= Z ? s - Z : s; }
    int inv(int a) { return a == 0 ? 0 : Z - a; }
    int neg(int a) { return mul(a, neg1); }
    int add(int a, int b) {
      if (a == Z) return b;
      if (b == Z) return a;
      int d = b - a; if (d < 0) d += Z;
      int z = zech[d];
      if (z == Z) return Z;
      int s = a + z; return s >= Z ? s - Z : s;
    }
    // number of roots in the field of sum g[i] y^i
    int roots(int[] g) {
      int n = g.length - 1;
      while (n >= 0 && g[n] == Z) n--;
      if (n < 0) return q;
      if (n == 0) return 0;
      if (n == 1) return 1;
      if (q <= 40) {
        int c = g[0] == Z ? 1 : 0;
        for (int y = 0; y < q - 1; y++) { int a = Z; for (int i = n; i >= 0; i--) a = add(mul(a, y), g[i]); if (a == Z) c++; }
        return c;
      }
      int[] m = new int[n];              // y^n = sum m[i] y^i
      int il = inv(g[n]);
      for (int i = 0; i < n; i++) m[i] = neg(mul(g[i], il));
      int[] x = new int[n];              // y^q mod g
      java.util.Arrays.fill(x, Z);
      x[1] = 0;                          // y (n >= 2)
      for (int t = 0; t < r; t++) x = pow(x, p, m, n);
      x[1] = add(x[1], neg1);            // y^q - y
      int[] a = java.util.Arrays.copyOf(g, n + 1), b = x;
      int da = n, db = n - 1;
      while (db >= 0 && b[db] == Z) db--;
      while (db >= 0) {
        int ib = inv(b[db]);
        for (int i = da; i >= db; i--) if (a[i] != Z) { int f = neg(mul(a[i], ib)); for (int j = 0; j <= db; j++) a[i - db + j] = add(a[i - db + j], mul(f, b[j])); }
        da = db - 1 < da ? db - 1 : da;
        while (da >= 0 && a[da] == Z) da--;
        int[] s = a; a = b; b = s; int d = da; da = db; db = d;
      }
      return da;
    }
    int[] mulmod(int[] u, int[] v, int[] m, int n) {
      int[] w = new int[2 * n - 1];
      java.util.Arrays.fill(w, Z);
      for (int i = 0; i < n; i++) if (u[i] != Z) for (int j = 0; j < n; j++) w[i + j] = add(w[i + j], mul(u[i], v[j]));
      for (int i = 2 * n - 2; i >= n; i--) if (w[i] != Z) for (int j = 0; j < n; j++) w[i - n + j] = add(w[i - n + j], mul(w[i], m[j]));
      return java.util.Arrays.copyOf(w, n);
    }
    int[] pow(int[] x, int e, int[] m, int n) {
      int[] a = new int[n];
      java.util.Arrays.fill(a, Z);
      a[0] = 0;
      for (int b = 31 - Integer.numberOfLeadingZeros(e); b >= 0; b--) { a = mulmod(a, a, m, n); if ((e >> b & 1) == 1) a = mulmod(a, x, m, n); }
      return a;
    }
  }
  static final java.util.concurrent.ConcurrentHashMap<Long, Field> fields = new java.util.concurrent.ConcurrentHashMap<>();

  public static Value PCount(Value f, Value n0, Value p0, Value r0) {
    final int n = ((IntValue) n0).val, p = ((IntValue) p0).val, r = ((IntValue) r0).val;
    final Field F = fields.computeIfAbsent((long) p * 64 + r, k -> new Field(p, r));
    Value[] ts = BigInt.seq(f);
    int T = 0, D = 0;
    int[][] ex = new int[ts.length][]; int[] co = new int[ts.length];
    for (Value t : ts) {
      Value[] tc = BigInt.seq(t); Value[] u = BigInt.seq(tc[0]);
      int c = BigInt.g(tc[1]).mod(BigInteger.valueOf(p)).intValueExact();
      if (c == 0) continue;
      ex[T] = new int[n + 1];
      for (int i = 0; i <= n; i++) { ex[T][i] = ((IntValue) u[i]).val; D = Math.max(D, ex[T][i]); }
      co[T++] = F.log[c];
    }
    long total = 0;
    int[] x = new int[n + 1];
    for (int j = 0; j <= n; j++) {
      // x_0 .. x_(j-1) = 0, x_j = 1
      for (int i = 0; i < j; i++) x[i] = F.Z;
      x[j] = 0;
      if (j == n) { if (eval(F, ex, co, T, x, n, n, D)[0] == F.Z) total++; continue; }
      for (int i = j + 1; i < n; i++) x[i] = F.Z;
      while (true) {
        total += F.roots(eval(F, ex, co, T, x, n, n - 1, D));
        int i = n - 1;
        // next values, in the order 0 (= Z), then the powers
        while (i > j) { if (x[i] == F.Z) { x[i] = 0; if (F.q == 1) { i--; continue; } break; } if (++x[i] < F.Z) break; x[i] = F.Z; i--; }
        if (i <= j) break;
      }
    }
    return IntValue.gen(Math.toIntExact(total));
  }
  // coefficients of the polynomial in the last variable after x_0..x_last have been put in (last = n: the value itself)
  static int[] eval(Field F, int[][] ex, int[] co, int T, int[] x, int n, int last, int D) {
    int[] g = new int[D + 1];
    java.util.Arrays.fill(g, F.Z);
    next:
    for (int t = 0; t < T; t++) {
      long m = co[t];
      for (int i = 0; i <= last; i++) { int e = ex[t][i]; if (e == 0) continue; if (x[i] == F.Z) continue next; m += (long) e * x[i]; }
      int k = last == n ? 0 : ex[t][n];
      g[k] = F.add(g[k], F.Z == 0 ? 0 : (int) (m % F.Z));
    }
    return g;
  }
}
