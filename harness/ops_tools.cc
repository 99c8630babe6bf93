// Operations on tools.h, vec_int64.h, conv.h and matrix.h kernels.
#include "common.h"

static std::vector<long> shape(const J &m) {
    std::vector<long> s(2);
    s[0] = m["r"].num(); s[1] = m["c"].num();
    return s;
}
// GMP matrices: exactly rows*cols entries followed by a guard entry that must not change
struct MpzArr {
    std::vector<__mpz_struct> v;
    long n;
    explicit MpzArr(long n) : v(n + 8), n(n) { for (size_t i = 0; i < v.size(); ++i) { mpz_init(&v[i]); mpz_set_si(&v[i], 987654321L); } }
    ~MpzArr() { for (size_t i = 0; i < v.size(); ++i) mpz_clear(&v[i]); }
    mpz_t *p() { return reinterpret_cast<mpz_t *>(&v[0]); }
    void set(long i, const string &s) { mpz_set_str(&v[i], s.c_str(), 10); }
    string get(long i) { char *c = mpz_get_str(NULL, 10, &v[i]); string r(c); free(c); return r; }
    bool guard() { for (size_t i = n; i < v.size(); ++i) if (mpz_cmp_si(&v[i], 987654321L) != 0) return false; return true; }
    void load(const J &m) { long r = m["r"].num(), c = m["c"].num(); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) set(i * c + j, m["m"].at(i).at(j).dec()); }
    void loadv(const J &m) { for (size_t i = 0; i < m.size(); ++i) set(i, m.at(i).dec()); }
    J mat(long r, long c) { J a = J::Arr(); for (long i = 0; i < r; ++i) { J b = J::Arr(); for (long j = 0; j < c; ++j) b.push(J::Str(get(i * c + j))); a.push(b); } return a; }
    J vec(long k) { J b = J::Arr(); for (long j = 0; j < k; ++j) b.push(J::Str(get(j))); return b; }
};
static string fstr(const fmpz *x) { char *c = fmpz_get_str(NULL, 10, x); string r(c); free(c); return r; }

template<class T> static J jmat(const Mat<T> &m) { return J::Obj().set("r", J::Int(m.NumRows())).set("c", J::Int(m.NumCols())).set("m", out(m)); }

static J sout(const Mon &v) { J a = J::Arr(); for (long i = 0; i < v.length(); ++i) a.push(J::Str(std::to_string(v[i]))); return a; }

bool ops_tools(const string &op, const J &c, J &r) {
    if (op == "tuples") {
        Vec<Mon> t;
        if (c.has("dirty")) { t.SetLength(3); for (int i = 0; i < 3; ++i) t[i].SetLength(2); }
        tuple_list_generator(t, c["d"].num(), c["n"].num());
        r.set("res", out(t));
    } else if (op == "less") {
        Mon a = mon(c["a"]), b = mon(c["b"]);
        J a3 = J::Arr();
        a3.push(J::Bool(a < b)); a3.push(J::Bool(b < a)); vi64less L; a3.push(J::Bool(L(a, b)));
        r.set("res", a3);
    } else if (op == "vecbig") {  // entries over the whole range of int64; everything printed as decimal strings
        Mon a = mon(c["a"]), b = mon(c["b"]); int64_t k = c["k"].num();
        string kind = c["kind"].s;
        if (kind == "less") { vi64less L; r.set("res", J::Arr().push(J::Bool(a < b)).push(J::Bool(b < a)).push(J::Bool(L(a, b)))); }
        else if (kind == "add") { Mon x; x = a + b; add(a, a, b); r.set("res", J::Arr().push(sout(x)).push(sout(a))); }
        else if (kind == "sub") { Mon x; x = a - b; sub(b, a, b); r.set("res", J::Arr().push(sout(x)).push(sout(b))); }
        else if (kind == "scal") { Mon x; x = k * a; mul(a, k, a); r.set("res", J::Arr().push(sout(x)).push(sout(a))); }
        else if (kind == "dot") { int64_t x = a * b, y = 99; mul(y, a, b); r.set("res", J::Arr().push(J::Str(std::to_string(x))).push(J::Str(std::to_string(y)))); }
        else if (kind == "mat") { Mat<int64_t> A; A.SetDims(2, a.length()); A[0] = a; A[1] = b; Mon x; x = A * mon(c["w"]); r.set("res", J::Arr().push(sout(x))); }
        else if (kind == "diff") r.set("res", J::Arr().push(sout(diff(a, k))));
        else if (kind == "tweak") r.set("res", J::Arr().push(sout(tweak(a, k))));
        else if (kind == "arr") { std::vector<int64_t> buf(a.length() + 2, 77); conv(&buf[0], a); Mon back; conv(back, &buf[0], (int64_t)a.length() + 1); r.set("res", J::Arr().push(sout(back))); }
        else if (kind == "max") r.set("res", J::Arr().push(J::Str(std::to_string(max(a)))));
        else return false;
    } else if (op == "vecops") {
        Mon a = mon(c["a"]), b = mon(c["b"]); int64_t k = c["k"].num();
        Mon x, y, z; x = a + b; y = a - b; z = k * a;
        Mon al = a; add(al, al, b);  // aliased output
        Mon al2 = b; sub(al2, a, al2);
        int64_t dot = a * b;
        r.set("res", J::Obj().set("add", out(x)).set("sub", out(y)).set("scal", out(z)).set("dot", out(dot)).set("addal", out(al)).set("subal", out(al2)));
    } else if (op == "vecmat") {
        Mat<int64_t> A; long R = c["m"].size(), C = R ? c["m"].at(0).size() : 0; A.SetDims(R, C);
        for (long i = 0; i < R; ++i) for (long j = 0; j < C; ++j) A[i][j] = c["m"].at(i).at(j).num();
        Mon x; x = A * mon(c["a"]);
        r.set("res", out(x));
    } else if (op == "vecarr") {
        Mon a = mon(c["a"]); std::vector<int64_t> buf(a.length() + 2, 77);
        conv(&buf[0], a);
        J b = J::Arr(); for (size_t i = 0; i < buf.size(); ++i) b.push(out(buf[i]));
        Mon back; conv(back, &buf[0], (int64_t)a.length());
        r.set("res", J::Obj().set("arr", b).set("back", out(back)));
    } else if (op == "diff") r.set("res", out(diff(mon(c["a"]), c["i"].num())));
    else if (op == "tweak") r.set("res", out(tweak(mon(c["a"]), c["k"].num())));
    else if (op == "tweak_step") r.set("res", out(tweak_step(mon(c["a"]))));
    else if (op == "binomial") r.set("res", J::Str(std::to_string(binomial(c["n"].num(), c["k"].num()))));
    else if (op == "binomial_ZZ") r.set("res", out(binomial_ZZ(c["n"].num(), c["k"].num())));
    else if (op == "factorial") { ZZ x = factorial<ZZ>(c["n"].num(), c["start"].num()); r.set("res", out(x)); }
    else if (op == "factorial_ZZ_p") { ZZ_p x = factorial<ZZ_p>(c["n"].num(), c["start"].num()); r.set("res", out(rep(x))); }
    else if (op == "factorial_p_adic") {
        ZZ_p x; int64_t v = c["start"].num() == 1 && c.has("dflt") ? factorial_p_adic(x, c["n"].num(), c["p"].num()) : factorial_p_adic(x, c["n"].num(), c["p"].num(), c["start"].num());
        r.set("res", J::Obj().set("unit", out(rep(x))).set("val", out(v)));
    } else if (op == "valfact") { int64_t v = valuation_of_factorial(c["n"].num(), c["p"].num()); r.set("res", c.has("big") ? J::Str(std::to_string(v)) : out(v)); }
    else if (op == "vecmax") { Mon a = mon(c["a"]); r.set("res", out(max(a))); }
    else if (op == "cov") {  // change of variables over F_p, Z/p^k or Z
        string R = c["ring"].s;
        if (R == "zz_p") r.set("res", out(change_of_variables<zz_p>(mapp(c["f"]), mlzp(c["m"]))));
        else if (R == "ZZ_p") { MapP g = change_of_variables<ZZ_p>(mapP(c["f"]), mzzp(c["m"])); J a = J::Arr(); for (MapP::iterator it = g.begin(); it != g.end(); ++it) a.push(J::Arr().push(out(it->first)).push(out(it->second))); r.set("res", a); }
        else r.set("res", out(change_of_variables<ZZ>(mapz(c["f"]), mzz(c["m"]))));
    } else if (op == "covmon") {
        map<Mon, int64_t, vi64less> g = change_of_variables_monomial(mon(c["u"]), mon(c["v"]));
        J a = J::Arr();
        for (map<Mon, int64_t, vi64less>::iterator it = g.begin(); it != g.end(); ++it) a.push(J::Arr().push(out(it->first)).push(J::Str(std::to_string(it->second))));
        r.set("res", a);
    } else if (op == "io") {  // text round trip of a map
        string R = c["ring"].s;
        stringstream s, h;
        J back;
        bool good = false;
        if (R == "zz_p") { Mapp f = mapp(c["f"]), g; s << f; h <<= f; if (c.has("dirty")) { g[f.begin()->first] = 0; Mon o = f.rbegin()->first; o[0] += 1; g[o] = 1; } s >> g; back = out(g); }
        else if (R == "ZZ_p") { MapP f = mapP(c["f"]), g; s << f; h <<= f; if (c.has("dirty")) { g[f.begin()->first] = conv<ZZ_p>(1); Mon o = f.rbegin()->first; o[0] += 1; g[o] = conv<ZZ_p>(1); } s >> g; back = out(g); }
        else if (R == "int") { map<Mon, int64_t, vi64less> f, g; for (size_t i = 0; i < c["f"].size(); ++i) f[mon(c["f"].at(i).at(0))] = c["f"].at(i).at(1).num(); s << f; h <<= f; s >> g; J b = J::Arr(); for (map<Mon, int64_t, vi64less>::iterator it = g.begin(); it != g.end(); ++it) b.push(J::Arr().push(out(it->first)).push(J::Str(std::to_string(it->second)))); back = b; }
        else { MapZ f = mapz(c["f"]), g; s << f; h <<= f; if (c.has("dirty")) { g[f.begin()->first] = 5; Mon o = f.rbegin()->first; o[0] += 1; g[o] = 5; } s >> g; back = out(g); }
        good = !s.fail();
        r.set("res", J::Obj().set("text", J::Str(s.str())).set("human", J::Str(h.str())).set("back", back).set("good", J::Bool(good)));
    } else if (op == "ioread") {
        stringstream s(c["text"].s); MapZ g; s >> g;
        r.set("res", J::Obj().set("back", out(g)).set("good", J::Bool(!s.fail())));
    } else if (op == "humvec") { stringstream h; Mon a = mon(c["a"]); h <<= a; r.set("res", J::Str(h.str())); }
    else if (op == "hummat") { stringstream h; Mat<ZZ> m = mzz(c["m"]); h <<= m; r.set("res", J::Str(h.str())); }
    else if (op == "sl") {
        J a = J::Arr();
        for (long i = 0; i < c["count"].num(); ++i) {
            Mat<zz_p> M = random_SL_matrix(c["n"].num());
            if (c.has("big")) { Mat<ZZ> Z; Z.SetDims(M.NumRows(), M.NumCols()); for (long x = 0; x < M.NumRows(); ++x) for (long y = 0; y < M.NumCols(); ++y) Z[x][y] = rep(M[x][y]); a.push(out(Z)); }
            else a.push(out(M));
        }
        r.set("res", a);
    }
    // conversions
    else if (op == "conv_int") {
        ZZ x = zz(c["x"]); mpz_t m; mpz_init_set_si(m, -123456789L); fmpz_t f; fmpz_init(f); fmpz_set_si(f, -5);
        fmpz_ui_pow_ui(f, 7, 90);
        conv(m, x); conv(f, x);
        char *q = mpz_get_str(NULL, 10, m); string ms(q); free(q);
        string fs = fstr(f);
        ZZ y, z; y = conv<ZZ>(12345); z = power_ZZ(-3, 101);
        conv(y, m); conv(z, f);
        mpz_clear(m); fmpz_clear(f);
        r.set("res", J::Arr().push(J::Str(ms)).push(J::Str(fs)).push(out(y)).push(out(z)));
    } else if (op == "conv_mat_mpz") {
        std::vector<long> s = shape(c["m"]); Mat<ZZ> B = mzz(c["m"]), A; MpzArr a(s[0] * s[1]);
        conv(a.p(), B);
        J flat = a.vec(s[0] * s[1]);
        bool g = a.guard();
        MpzArr b(s[0] * s[1]); b.load(c["m"]);
        A.SetDims(2, 5);
        conv(A, b.p(), s[0], s[1]);
        r.set("res", J::Obj().set("flat", flat).set("guard", J::Bool(g)).set("back", jmat(A)));
    } else if (op == "conv_mat_fmpz") {
        std::vector<long> s = shape(c["m"]); Mat<ZZ> B = mzz(c["m"]), A; fmpz_mat_t F; fmpz_mat_init(F, s[0], s[1]);
        conv(F, B);
        J e = J::Arr();
        for (long i = 0; i < s[0]; ++i) { J b = J::Arr(); for (long j = 0; j < s[1]; ++j) b.push(J::Str(fstr(fmpz_mat_entry(F, i, j)))); e.push(b); }
        conv(A, F);
        J o = J::Obj().set("entries", e).set("back", jmat(A));
        Mat<ZZ_p> Bp = conv< Mat<ZZ_p> >(B), Ap;
        fmpz_mat_zero(F); conv(F, Bp);
        J e2 = J::Arr();
        for (long i = 0; i < s[0]; ++i) { J b = J::Arr(); for (long j = 0; j < s[1]; ++j) b.push(J::Str(fstr(fmpz_mat_entry(F, i, j)))); e2.push(b); }
        conv(F, B);           // arbitrary integers into Z/m
        conv(Ap, F);
        J red = J::Arr();
        for (long i = 0; i < Ap.NumRows(); ++i) { J b = J::Arr(); for (long j = 0; j < Ap.NumCols(); ++j) b.push(J::Str(dec(rep(Ap[i][j])))); red.push(b); }
        o.set("resid", e2).set("red", red);
        fmpz_mat_clear(F);
        r.set("res", o);
    } else if (op == "conv_vec_fmpz") {
        Vec<ZZ> v = vzz(c["v"]), w; long n = v.length();
        fmpz *f = _fmpz_vec_init(n + 2); fmpz_set_si(f + n, 4242);
        conv(f, v);
        J e = J::Arr(); for (long i = 0; i < n + 1; ++i) e.push(J::Str(fstr(f + i)));
        w.SetLength(7);
        conv(w, f, n);
        Vec<ZZ_p> wp; conv(wp, f, n);
        J red = J::Arr(); for (long i = 0; i < wp.length(); ++i) red.push(J::Str(dec(rep(wp[i]))));
        _fmpz_vec_clear(f, n + 2);
        r.set("res", J::Obj().set("entries", e).set("back", out(w)).set("red", red));
    } else if (op == "conv_nmod_ZZ") {   // word-size residues of any modulus to integers (and back through the current residue ring when it is the same modulus)
        std::vector<long> sh = shape(c["m"]); nmod_mat_t N; nmod_mat_init(N, sh[0], sh[1], strtoull(c["mod"].dec().c_str(), 0, 10));
        for (long i = 0; i < sh[0]; ++i) for (long j = 0; j < sh[1]; ++j) nmod_mat_entry(N, i, j) = strtoull(c["m"]["m"].at(i).at(j).dec().c_str(), 0, 10);
        Mat<ZZ> B; conv(B, N); Mat<ZZ_p> P; conv(P, N); nmod_mat_clear(N);
        r.set("res", J::Obj().set("Z", jmat(B)).set("P", jmat(P)));
    } else if (op == "conv_nmod") {
        std::vector<long> s = shape(c["m"]); nmod_mat_t N; nmod_mat_init(N, s[0], s[1], zz_p::modulus());
        Mat<zz_p> M = mlzp(c["m"]), B; conv(N, M);
        J e = J::Arr();
        for (long i = 0; i < s[0]; ++i) { J b = J::Arr(); for (long j = 0; j < s[1]; ++j) b.push(J::Int(nmod_mat_entry(N, i, j))); e.push(b); }
        conv(B, N);
        Mat<ZZ_p> P = mzzp(c["m"]); conv(N, P);
        J e2 = J::Arr();
        for (long i = 0; i < s[0]; ++i) { J b = J::Arr(); for (long j = 0; j < s[1]; ++j) b.push(J::Int(nmod_mat_entry(N, i, j))); e2.push(b); }
        nmod_mat_clear(N);
        r.set("res", J::Obj().set("entries", e).set("back", jmat(B)).set("fromZZp", e2));
    }
    // kernels
    else if (op == "mpz_mul") {
        std::vector<long> a = shape(c["a"]), b = shape(c["b"]);
        MpzArr A(a[0] * a[1]), B(b[0] * b[1]), R(a[0] * b[1]); A.load(c["a"]); B.load(c["b"]);
        mul(R.p(), A.p(), a[0], a[1], B.p(), b[0], b[1]);
        r.set("res", J::Obj().set("m", R.mat(a[0], b[1])).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_mul_transpose") {  // B given as the transpose (column major): b holds rowsB x colsB
        std::vector<long> a = shape(c["a"]), b = shape(c["b"]);
        MpzArr A(a[0] * a[1]), B(b[0] * b[1]), R(a[0] * b[1]); A.load(c["a"]);
        for (long i = 0; i < b[0]; ++i) for (long j = 0; j < b[1]; ++j) B.set(j * b[0] + i, c["b"]["m"].at(i).at(j).dec());
        mul_transpose(R.p(), A.p(), a[0], a[1], B.p(), b[0], b[1]);
        r.set("res", J::Obj().set("m", R.mat(a[0], b[1])).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_scal") {
        std::vector<long> a = shape(c["a"]); MpzArr A(a[0] * a[1]), R(a[0] * a[1]), S(1); A.load(c["a"]); S.set(0, c["s"].dec());
        mul(R.p(), *S.p(), A.p(), a[0], a[1]);
        r.set("res", J::Obj().set("m", R.mat(a[0], a[1])).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_matvec") {
        std::vector<long> a = shape(c["a"]); MpzArr A(a[0] * a[1]), V(a[1]), R(a[0]); A.load(c["a"]); V.loadv(c["v"]);
        mul(R.p(), A.p(), a[0], a[1], V.p(), a[1]);
        r.set("res", J::Obj().set("m", R.vec(a[0])).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_scalvec") {
        long n = c["v"].size(); MpzArr V(n), R(n), S(1); V.loadv(c["v"]); S.set(0, c["s"].dec());
        mul(R.p(), *S.p(), V.p(), n);
        r.set("res", J::Obj().set("m", R.vec(n)).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_dot") {
        long n = c["v"].size(); MpzArr V(n), W(n), R(1); V.loadv(c["v"]); W.loadv(c["w"]);
        mul(*R.p(), V.p(), n, W.p(), n);
        r.set("res", J::Obj().set("m", R.vec(1)).set("guard", J::Bool(R.guard())));
    } else if (op == "mpz_addvec") {
        long n = c["v"].size(); MpzArr V(n), W(n), R(n); V.loadv(c["v"]); W.loadv(c["w"]);
        mul(R.p(), V.p(), n, W.p(), n);
        J one = R.vec(n);
        mul(V.p(), V.p(), n, W.p(), n);
        r.set("res", J::Obj().set("m", one).set("al", V.vec(n)).set("guard", J::Bool(R.guard() && V.guard())));
    } else if (op == "fmpz_matvec") {
        std::vector<long> a = shape(c["a"]); fmpz_mat_t F; fmpz_mat_init(F, a[0], a[1]); Mat<ZZ> A = mzz(c["a"]); conv(F, A);
        fmpz *v = _fmpz_vec_init(a[1] + 1), *w = _fmpz_vec_init(a[0] + 1); Vec<ZZ> V = vzz(c["v"]); conv(v, V); fmpz_set_si(w + a[0], 99);
        for (long i = 0; i < a[0]; ++i) fmpz_set_si(w + i, 31337 + i);
        mul(w, F, v);
        J e = J::Arr(); for (long i = 0; i <= a[0]; ++i) e.push(J::Str(fstr(w + i)));
        _fmpz_vec_clear(v, a[1] + 1); _fmpz_vec_clear(w, a[0] + 1); fmpz_mat_clear(F);
        r.set("res", e);
    } else if (op == "fmpz_dot") {
        long n = c["v"].size(); fmpz *v = _fmpz_vec_init(n + 1), *w = _fmpz_vec_init(n + 1); Vec<ZZ> V = vzz(c["v"]), W = vzz(c["w"]); conv(v, V); conv(w, W);
        fmpz_t x; fmpz_init(x); fmpz_set_si(x, 77); mul(x, v, w, n);
        r.set("res", J::Str(fstr(x)));
        fmpz_clear(x); _fmpz_vec_clear(v, n + 1); _fmpz_vec_clear(w, n + 1);
    } else if (op == "nmod_matvec" || op == "nmod_sub") {
        std::vector<long> a = shape(c["a"]); ulong m = strtoul(c["mod"].dec().c_str(), NULL, 10);
        nmod_mat_t A; nmod_mat_init(A, a[0], a[1], m);
        for (long i = 0; i < a[0]; ++i) for (long j = 0; j < a[1]; ++j) nmod_mat_entry(A, i, j) = strtoul(c["a"]["m"].at(i).at(j).dec().c_str(), NULL, 10) % m;
        J e = J::Arr();
        if (op == "nmod_matvec") {
            std::vector<ulong> v(a[1] + 1), w(a[0] + 1, 12345);
            for (long j = 0; j < a[1]; ++j) v[j] = strtoul(c["v"].at(j).dec().c_str(), NULL, 10) % m;
            nmod_dot_params_t params = nmod_vec_dot_params_compat(a[1], A->mod);
            mul(&w[0], A, &v[0], params);
            for (long i = 0; i < a[0]; ++i) e.push(J::Str(std::to_string(w[i])));
        } else {
            nmod_mat_t B, C; nmod_mat_init(B, a[0], a[1], m); nmod_mat_init(C, a[0], a[1], m);
            for (long i = 0; i < a[0]; ++i) for (long j = 0; j < a[1]; ++j) nmod_mat_entry(B, i, j) = strtoul(c["b"]["m"].at(i).at(j).dec().c_str(), NULL, 10) % m;
            nmod_mat_sub(C, A, B);
            nmod_mat_sub(A, A, B);  // aliased
            bool same = nmod_mat_equal(A, C);
            for (long i = 0; i < a[0]; ++i) { J b = J::Arr(); for (long j = 0; j < a[1]; ++j) b.push(J::Str(std::to_string(nmod_mat_entry(C, i, j)))); e.push(b); }
            r.set("same", J::Bool(same));
            nmod_mat_clear(B); nmod_mat_clear(C);
        }
        nmod_mat_clear(A);
        r.set("res", e);
    } else if (op == "mul_transpose" || op == "transpose_mul_transpose") {  // b is B, with A * transpose(B) wanted
        bool t = op != "mul_transpose";
        string R = c["ring"].s;
        if (R == "ZZ") { Mat<ZZ> X; X.SetDims(1, 3); Mat<ZZ> A = mzz(c["a"]), B = mzz(c["b"]); if (t) transpose_mul_transpose<ZZ>(X, A, B); else mul_transpose<ZZ>(X, A, B); r.set("res", jmat(X)); }
        else if (R == "zz_p") { Mat<zz_p> X; Mat<zz_p> A = mlzp(c["a"]), B = mlzp(c["b"]); if (t) transpose_mul_transpose<zz_p>(X, A, B); else mul_transpose<zz_p>(X, A, B); r.set("res", jmat(X)); }
        else { Mat<ZZ_p> X; Mat<ZZ_p> A = mzzp(c["a"]), B = mzzp(c["b"]); if (t) transpose_mul_transpose<ZZ_p>(X, A, B); else mul_transpose<ZZ_p>(X, A, B);
               J e = J::Arr(); for (long i = 0; i < X.NumRows(); ++i) { J b = J::Arr(); for (long j = 0; j < X.NumCols(); ++j) b.push(J::Str(dec(rep(X[i][j])))); e.push(b); }
               r.set("res", J::Obj().set("r", J::Int(X.NumRows())).set("c", J::Int(X.NumCols())).set("m", e)); }
    } else if (op == "trace") r.set("res", out(trace(mzz(c["m"]))));
    else return false;
    return true;
}
