// Operations on the solver, characteristic polynomials, tables.
#include "common.h"

static J bu(const Vec<int64_t> &B, const J &U, long ur, long uc) { return J::Obj().set("B", out(B)).set("U", U).set("ur", J::Int(ur)).set("uc", J::Int(uc)); }

bool ops_linalg(const string &op, const J &c, J &r) {
    if (op == "solve_p") {
        Mat<zz_p> T = mlzp(c["T"]), U; Vec<int64_t> B;
        string how = c["how"].s;
        if (how == "flint_direct") {
            nmod_mat_t t, u; nmod_mat_init(t, T.NumRows(), T.NumCols(), zz_p::modulus()); conv(t, T);
            solve_system_zz_p_flint(B, u, t);
            conv(U, u); nmod_mat_clear(u);
            Mat<zz_p> T2; conv(T2, t); r.set("Tsame", J::Bool(T2 == T)); nmod_mat_clear(t);
        } else if (how == "ntl_direct") { solve_system_zz_p_NTL(B, U, T); r.set("Tsame", J::Bool(T == mlzp(c["T"]))); }
        else { if (c.has("dirty")) { B.SetLength(4, 9); long h = c["dirty"].num(); U.SetDims(h, h); for (long i = 0; i < h; ++i) for (long j = 0; j < h; ++j) U[i][j] = 1; } solve_system_zz_p(B, U, T, how == "flint"); r.set("Tsame", J::Bool(T == mlzp(c["T"]))); }
        r.set("res", bu(B, out(U), U.NumRows(), U.NumCols()));
    } else if (op == "solve_padic") {
        Mat<ZZ_p> T = mzzp(c["T"]), U; Vec<int64_t> B;
        string how = c["how"].s;
        int64_t k = c["k"].num();
        if (how == "flint_direct") solve_system_padic_flint(B, U, T, k);
        else if (how == "ntl_direct") solve_system_padic_NTL(B, U, T, k);
        else if (how == "default") solve_system_padic(B, U, T, k);
        else { if (c.has("dirty")) { B.SetLength(4, 9); long h = c["dirty"].num(); U.SetDims(h, h); for (long i = 0; i < h; ++i) for (long j = 0; j < h; ++j) U[i][j] = 1; } solve_system_padic(B, U, T, k, how == "flint"); }
        r.set("Tsame", J::Bool(T == mzzp(c["T"])));
        r.set("res", bu(B, out(U), U.NumRows(), U.NumCols()));
    } else if (op == "charpoly") r.set("res", out(charpoly(mzz(c["m"]))));
    else if (op == "charpoly_frob") {
        Mon prec = mon(c["prec"]);
        r.set("res", out(charpoly_frob(mzz(c["m"]), prec, c["p"].num(), c["dim"].num())));
        r.set("precsame", J::Bool(prec == mon(c["prec"])));
    } else if (op == "picard") r.set("res", out(geometric_picard(vzz(c["cp"]), c["p"].num(), c["dim"].num())));
    else if (op == "default_args") {
        int64_t precision = -1; Vec<int64_t> N, cp;
        if (c.has("dirty")) { N.SetLength(9, 5); cp.SetLength(2, 3); }
        default_args(precision, N, cp, c["p"].num(), c["n"].num(), c["d"].num());
        r.set("res", J::Obj().set("precision", out(precision)).set("N", out(N)).set("cp", out(cp)));
    } else return false;
    return true;
}
