// Operations on de Rham objects and hypersurfaces.
#include "common.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <signal.h>
#include <fstream>
#include <algorithm>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif

struct Obj {
    shared_ptr<de_Rham_local> dr;
    shared_ptr<de_Rham_non_degenerate_local> nd;
    shared_ptr<hypersurface> h;
    shared_ptr<hypersurface_non_degenerate> hn;
};
static map<int64_t, Obj> objs;
static map<string, void *> held;   // pointers handed out earlier

static string scratch() {
    static string dir;
    if (dir.empty()) {
        char t[] = "scr-XXXXXX";
        if (!mkdtemp(t)) _exit(96);
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) _exit(96);
        dir = string(cwd) + "/" + t;
    }
    return dir;
}
string vp_scratch() { return scratch(); }
static string path(const J &c) { return scratch() + "/" + c["file"].s; }

static Obj make(const string &kind, const string &how, const J &c) {
    Obj o;
    int64_t p = c["p"].num(), prec = c["prec"].num(), n = c.has("n") ? c["n"].num() : 0, d = c.has("d") ? c["d"].num() : 0;
    bool verbose = c.has("verbose") && c["verbose"].num(), sm = !c.has("save_memory") || c["save_memory"].num(), dflt = !c.has("save_memory");
    string file = how == "file" ? path(c) : "";
    // de Rham objects take save_memory; hypersurfaces do not
#define DR(T) \
    if (how == "map") r = dflt ? make_shared<T>(p, prec, mapP(c["f"]), verbose) : make_shared<T>(p, prec, mapP(c["f"]), verbose, sm); \
    else if (how == "mapbar") r = dflt ? make_shared<T>(p, prec, mapp(c["f"]), verbose) : make_shared<T>(p, prec, mapp(c["f"]), verbose, sm); \
    else if (how == "vec") r = dflt ? make_shared<T>(p, prec, n, d, vzzp(c["vec"]), verbose) : make_shared<T>(p, prec, n, d, vzzp(c["vec"]), verbose, sm); \
    else if (how == "vecbar") r = dflt ? make_shared<T>(p, prec, n, d, vlzp(c["vec"]), verbose) : make_shared<T>(p, prec, n, d, vlzp(c["vec"]), verbose, sm); \
    else if (how == "random") r = dflt ? make_shared<T>(p, prec, n, d, verbose) : make_shared<T>(p, prec, n, d, verbose, sm); \
    else if (how == "file") r = make_shared<T>(file.c_str()); \
    else _exit(95);
#define HY(T) \
    if (how == "map") r = make_shared<T>(p, prec, mapP(c["f"]), verbose); \
    else if (how == "mapbar") r = make_shared<T>(p, prec, mapp(c["f"]), verbose); \
    else if (how == "vec") r = make_shared<T>(p, prec, n, d, vzzp(c["vec"]), verbose); \
    else if (how == "vecbar") r = make_shared<T>(p, prec, n, d, vlzp(c["vec"]), verbose); \
    else if (how == "random") r = make_shared<T>(p, prec, n, d, verbose); \
    else if (how == "file") r = make_shared<T>(file.c_str()); \
    else _exit(95);
    if (kind == "dR") { shared_ptr<de_Rham_local> r; DR(de_Rham_local) o.dr = r; }
    else if (kind == "nd") { shared_ptr<de_Rham_non_degenerate_local> r; DR(de_Rham_non_degenerate_local) o.nd = r; o.dr = r; }
    else if (kind == "hyp") { shared_ptr<hypersurface> r; HY(hypersurface) o.h = r; o.dr = r->dR; }
    else if (kind == "hypnd") { shared_ptr<hypersurface_non_degenerate> r; HY(hypersurface_non_degenerate) o.hn = r; o.h = r; o.dr = r->dR; o.nd = r->dR_ND; }
    else _exit(95);
    return o;
}

static J dict(const map<Mon, int64_t, vi64less> &m) {
    J a = J::Arr();
    for (map<Mon, int64_t, vi64less>::const_iterator it = m.begin(); it != m.end(); ++it) { J t = J::Arr(); t.push(out(it->first)); t.push(J::Int(it->second)); a.push(t); }
    return a;
}
static J dump(const Obj &o, bool full) {
    J r = J::Obj();
    const de_Rham_local &D = *o.dr;
    r.set("p", J::Int(D.p)).set("prec", J::Int(D.precision)).set("n", J::Int(D.n)).set("d", J::Int(D.d)).set("save_memory", J::Bool(D.save_memory)).set("verbose", J::Bool(D.verbose));
    r.set("f", out(D.f)).set("fbar", out(D.fbar)).set("HJ", out(D.Hilbert_J)).set("basis", out(D.coKernels_J_basis)).set("basisdict", dict(D.coKernels_J_basis_dict));
    if (o.nd) r.set("HND", out(o.nd->Hilbert_ND)).set("ndbasis", out(o.nd->coKernels_ND_basis)).set("ndbasisdict", dict(o.nd->coKernels_ND_basis_dict));
    if (o.h) {
        r.set("h", J::Obj().set("p", J::Int(o.h->p)).set("prec", J::Int(o.h->precision)).set("n", J::Int(o.h->n)).set("d", J::Int(o.h->d)).set("same", J::Bool(o.h->dR.get() == o.dr.get())));
        J a = J::Arr();
        for (long i = 0; i < o.h->fpow.length(); ++i) a.push(out(o.h->fpow[i]));
        r.set("fpow", a);
    }
    if (full) {
        J tl = J::Arr(), td = J::Arr();
        for (long i = 0; i < D.tuple_list.length(); ++i) tl.push(out(D.tuple_list[i]));
        for (long i = 0; i < D.tuple_dict.length(); ++i) td.push(dict(D.tuple_dict[i]));
        r.set("tuple_list", tl).set("tuple_dict", td);
    }
    return r;
}
static J sizes(const Obj &o) {
    J r = J::Obj();
    const de_Rham_local &D = *o.dr;
    r.set("solve_J", J::Int(D.solve_J.size())).set("incl", J::Int(D.inclusion_matrix_J_dict.size())).set("final", J::Int(D.final_reduction_matrix_J_dict.length()))
     .set("red", J::Int(D.reduction_matrix_J_dict.size())).set("redZZ", J::Int(D.reduction_matrix_J_ZZ_dict.size())).set("basisdict", J::Int(D.coKernels_J_basis_dict.size()));
    int64_t t = 0;
    for (long i = 0; i < D.tuple_dict.length(); ++i) t += D.tuple_dict[i].size();
    r.set("tuples", J::Int(t));
    if (o.nd) {
        const de_Rham_non_degenerate_local &N = *o.nd;
        r.set("solve_ND", J::Int(N.solve_ND.size())).set("inclND", J::Int(N.inclusion_matrix_ND_dict.size())).set("cokb", J::Int(N.coKernels_ND_to_basis_dict.size()))
         .set("redND", J::Int(N.reduction_matrix_ND_dict.size())).set("redNDZZ", J::Int(N.reduction_matrix_ND_ZZ_dict.size()))
         .set("poly", J::Int(N.reduction_matrix_ND_poly_dict.size())).set("polyZZ", J::Int(N.reduction_matrix_ND_poly_ZZ_dict.size())).set("ndbasisdict", J::Int(N.coKernels_ND_basis_dict.size()));
    }
    if (o.h) r.set("fpow", J::Int(o.h->fpow.length()));
    return r;
}
static J listdir() {
    vector<string> v;
    DIR *d = opendir(scratch().c_str());
    while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(d);
    sort(v.begin(), v.end());
    J a = J::Arr();
    for (size_t i = 0; i < v.size(); ++i) {
        struct stat st; stat((scratch() + "/" + v[i]).c_str(), &st);
        J t = J::Arr(); t.push(J::Str(v[i])); t.push(J::Int(S_ISDIR(st.st_mode) ? -1 : st.st_size)); a.push(t);
    }
    return a;
}
static string slurp(const string &f) { ifstream i(f.c_str()); stringstream s; s << i.rdbuf(); return s.str(); }
static bool dosave(const Obj &o, const J &c) {
    string f = c.has("abs") ? c["abs"].s : path(c);
    if (o.h && !(c.has("via") && c["via"].s == "dr")) return o.h->save(f.c_str());
    return o.dr->save(f.c_str());
}
static J bu(const pair< Vec<int64_t>, Mat<ZZ_p> > &x) { return J::Obj().set("B", out(x.first)).set("U", out(x.second)).set("ur", J::Int(x.second.NumRows())).set("uc", J::Int(x.second.NumCols())); }
template<class T> static J hold(const J &c, T *ptr) {
    // {"hold":"name"}: keep the pointer, to be looked at again later with op "held"
    if (c.has("hold")) held[c["hold"].s] = (void *)ptr;
    return out(*ptr);
}

// k reduction steps of a vector by the chosen routine
static J reduceJ(de_Rham_local &D, const J &c) {
    Mon u = mon(c["u"]), v = mon(c["v"]);
    string how = c["how"].s;
    int64_t k = c.has("k") ? c["k"].num() : 1;
    if (how == "one") return out(D.reduce_vector_J(u, v, vzzp(c["G"])));
    if (how == "oneZZ") { Vec<ZZ> r; if (c.has("alias")) { r = vzz(c["G"]); D.reduce_vector_J_ZZ(r, u, v, r); } else D.reduce_vector_J_ZZ(r, u, v, vzz(c["G"])); return outmod(r); }
    if (how == "poly") { Vec<ZZ_p> r; if (c.has("alias")) { r = vzzp(c["G"]); D.reduce_vector_J_poly(r, u, v, k, r); } else D.reduce_vector_J_poly(r, u, v, k, vzzp(c["G"])); return out(r); }
    if (how == "polyZZ") { Vec<ZZ> r; if (c.has("alias")) { r = vzz(c["G"]); D.reduce_vector_J_poly_ZZ(r, u, v, k, r); } else D.reduce_vector_J_poly_ZZ(r, u, v, k, vzz(c["G"])); return outmod(r); }
    if (how == "mat") return out(D.get_reduction_matrix_J(u, v) * vzzp(c["G"]));
    if (how == "matZZ") return outmod(D.get_reduction_matrix_J_ZZ(u, v) * vzz(c["G"]));
    _exit(95);
}
static J reduceND(de_Rham_non_degenerate_local &D, const J &c) {
    Mon u = mon(c["u"]), v = mon(c["v"]);
    string how = c["how"].s;
    int64_t k = c.has("k") ? c["k"].num() : 1, w = D.coKernels_ND_basis.length();
    bool alias = c.has("alias");
    if (how == "one") { Vec<ZZ_p> r; D.reduce_vector_ND(r, u, v, vzzp(c["G"])); return out(r); }
    if (how == "oneZZ") { Vec<ZZ> r; D.reduce_vector_ND_ZZ(r, u, v, vzz(c["G"])); return outmod(r); }
    if (how == "poly") { Vec<ZZ_p> r; if (alias) { r = vzzp(c["G"]); D.reduce_vector_ND_poly(r, u, v, k, r); } else D.reduce_vector_ND_poly(r, u, v, k, vzzp(c["G"])); return out(r); }
    if (how == "polyZZ") { Vec<ZZ> r; if (alias) { r = vzz(c["G"]); D.reduce_vector_ND_poly_ZZ(r, u, v, k, r); } else D.reduce_vector_ND_poly_ZZ(r, u, v, k, vzz(c["G"])); return outmod(r); }
    if (how == "mat") return out(D.get_reduction_matrix_ND(u, v) * vzzp(c["G"]));
    if (how == "matZZ") return outmod(D.get_reduction_matrix_ND_ZZ(u, v) * vzz(c["G"]));
    if (how == "flint") {
        int64_t n = D.n;
        fmpz_t modulus; fmpz_init(modulus); conv(modulus, ZZ_p::modulus());
        fmpz_mat_struct *poly = (fmpz_mat_struct *)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2));
        for (int64_t i = 0; i < n + 2; ++i) fmpz_mat_init(poly + i, w, w);
        D.get_ND_poly_flint(poly, u, v);
        fmpz *g = _fmpz_vec_init(w), *res = alias ? g : _fmpz_vec_init(w);
        Vec<ZZ_p> G = vzzp(c["G"]), R;
        conv(g, G);
        D.reduce_vector_ND_poly_flint(res, poly, k, g, modulus);
        conv(R, res, w);
        if (!alias) _fmpz_vec_clear(res, w);
        _fmpz_vec_clear(g, w);
        for (int64_t i = 0; i < n + 2; ++i) fmpz_mat_clear(poly + i);
        flint_free(poly);
        fmpz_clear(modulus);
        return out(R);
    }
    _exit(95);
}
// the FLINT evaluation with matrices chosen by the specification (no de Rham object behind them)
static J flintpoly(const J &c) {
    int64_t n = c["n"].num(), k = c["k"].num(), w = c["poly"].at(0).size();
    de_Rham_non_degenerate_local D;
    D.n = n;
    fmpz_t modulus; fmpz_init(modulus); conv(modulus, ZZ_p::modulus());
    fmpz_mat_struct *poly = (fmpz_mat_struct *)flint_malloc(sizeof(fmpz_mat_struct) * (n + 2));
    for (int64_t i = 0; i < n + 2; ++i) { fmpz_mat_init(poly + i, w, w); Mat<ZZ> m = mzz(c["poly"].at(i)); conv(poly + i, m); }
    fmpz *g = _fmpz_vec_init(w), *res = _fmpz_vec_init(w);
    Vec<ZZ_p> G = vzzp(c["G"]), R;
    conv(g, G);
    D.reduce_vector_ND_poly_flint(res, poly, k, g, modulus);
    conv(R, res, w);
    _fmpz_vec_clear(res, w); _fmpz_vec_clear(g, w);
    for (int64_t i = 0; i < n + 2; ++i) fmpz_mat_clear(poly + i);
    flint_free(poly); fmpz_clear(modulus);
    return out(R);
}

bool ops_dr(const string &op, const J &c, J &r) {
    if (op == "isSmooth") { r.set("res", J::Bool(isSmooth(mapp(c["f"])))); return true; }
    if (op == "isND") { r.set("res", J::Bool(isND(mapp(c["f"])))); return true; }
    if (op == "findcov") {
        Mat<zz_p> M = c.has("N") ? find_change_of_variables(mapp(c["f"]), c["N"].num()) : find_change_of_variables(mapp(c["f"]));
        r.set("res", out(M));
        return true;
    }
    if (op == "flintpoly") { r.set("res", flintpoly(c)); return true; }
    if (op == "new") { objs[c["id"].num()] = make(c["kind"].s, c["how"].s, c); r.set("res", dump(objs[c["id"].num()], c.has("full"))); return true; }
    if (op == "twin") {  // an object from the equation another object has recorded
        J d = dump(objs[c["of"].num()], false), x = c;
        x.set("f", d["f"]);
        objs[c["id"].num()] = make(c["kind"].s, "map", x);
        r.set("res", dump(objs[c["id"].num()], false));
        return true;
    }
    if (op == "list") { r.set("res", listdir()); return true; }
    if (op == "mkdir") { mkdir(path(c).c_str(), 0755); r.set("res", J::Bool(true)); return true; }
    if (op == "samefile") { r.set("res", J::Bool(slurp(path(c)) == slurp(scratch() + "/" + c["other"].s))); return true; }
    if (op == "held") {
        string t = c["type"].s; void *q = held[c["name"].s];
        if (t == "mat") r.set("res", out(*(Mat<ZZ_p> *)q)); else r.set("res", bu(*(pair< Vec<int64_t>, Mat<ZZ_p> > *)q));
        return true;
    }
    if (op == "threads") {
#ifdef _OPENMP
        omp_set_num_threads(c["n"].num());
#endif
        r.set("res", J::Bool(true));
        return true;
    }
    static const char *names[] = {"dump", "mtb", "final", "incl", "solveJ", "matJ", "redJ", "rvJ", "compute", "sizes", "selftest", "save", "crashsave", "solveND", "matND", "inclnd", "cokb",
        "redND", "rvND", "fpow", "frob", "frobmat", "frobvals", "copy", "drop", 0};
    bool mine = false;
    for (int i = 0; names[i]; ++i) mine = mine || op == names[i];
    if (!mine) return false;
    Obj &o = objs[c["id"].num()];
    de_Rham_local &D = *o.dr;
    if (op == "dump") r.set("res", dump(o, c.has("full")));
    else if (op == "mtb") {
        J a = J::Arr();
        bool nd = c.has("nd") && c["nd"].num();
        for (size_t i = 0; i < c["us"].size(); ++i) a.push(out(nd ? o.nd->monomial_to_basis_ND(mon(c["us"].at(i))) : D.monomial_to_basis_J(mon(c["us"].at(i)))));
        r.set("res", a);
    }
    else if (op == "final") r.set("res", hold(c, D.get_final_reduction_matrix_J(c["k"].num())));
    else if (op == "incl") r.set("res", hold(c, D.get_inclusion_matrix_J(mon(c["u"]))));
    else if (op == "solveJ") { pair< Vec<int64_t>, Mat<ZZ_p> > *q = D.get_solve_J(c["level"].num()); if (c.has("hold")) held[c["hold"].s] = q; r.set("res", bu(*q)); }
    else if (op == "solveND") { pair< Vec<int64_t>, Mat<ZZ_p> > *q = o.nd->get_solve_ND(c["level"].num()); if (c.has("hold")) held[c["hold"].s] = q; r.set("res", bu(*q)); }
    else if (op == "matJ") { Mat<ZZ_p> m; D.matrix_J(m, c["level"].num()); r.set("res", out(m)); }
    else if (op == "matND") { Mat<ZZ_p> m; o.nd->matrix_ND(m, c["level"].num()); r.set("res", out(m)); }
    else if (op == "redJ") r.set("res", c.has("zz") && c["zz"].num() ? outmod(D.get_reduction_matrix_J_ZZ(mon(c["u"]), mon(c["v"]))) : out(D.get_reduction_matrix_J(mon(c["u"]), mon(c["v"]))));
    else if (op == "rvJ") r.set("res", reduceJ(D, c));
    else if (op == "redND") r.set("res", c.has("zz") && c["zz"].num() ? outmod(o.nd->get_reduction_matrix_ND_ZZ(mon(c["u"]), mon(c["v"]))) : out(o.nd->get_reduction_matrix_ND(mon(c["u"]), mon(c["v"]))));
    else if (op == "rvND") r.set("res", reduceND(*o.nd, c));
    else if (op == "inclnd") r.set("res", hold(c, o.nd->get_inclusion_matrix_ND(mon(c["u"]), c["l"].num())));
    else if (op == "cokb") r.set("res", hold(c, o.nd->get_coKernels_ND_to_basis(mon(c["u"]))));
    else if (op == "compute") {
        string w = c["what"].s;
        if (w == "J") D.compute_everything_J();
        else if (w == "ND") o.nd->compute_everything_ND();
        else if (w == "ND00") o.nd->compute_everything_ND(false, false);
        else if (w == "ND01") o.nd->compute_everything_ND(false, true);
        else if (w == "ND10") o.nd->compute_everything_ND(true, false);
        else if (w == "red") D.compute_reduction_matrix_J(mon(c["v"]));
        else if (w == "redZZ") D.compute_reduction_matrix_J_ZZ(mon(c["v"]));
        else if (w == "redND") o.nd->compute_reduction_matrix_ND(mon(c["v"]));
        else if (w == "redNDZZ") o.nd->compute_reduction_matrix_ND_ZZ(mon(c["v"]));
        else if (w == "poly") o.nd->compute_reduction_matrix_ND_poly(mon(c["v"]));
        else if (w == "polyZZ") o.nd->compute_reduction_matrix_ND_poly_ZZ(mon(c["v"]));
        else _exit(95);
        r.set("res", sizes(o));
    }
    else if (op == "sizes") r.set("res", sizes(o));
    else if (op == "selftest") {
        string w = c["what"].s;
        bool b = w == "mtbJ" ? D.test_monomial_to_basis_J(c["N"].num()) : w == "pathsJ" ? D.test_paths_J(c["trials"].num(), c["paths"].num())
               : w == "mtbND" ? o.nd->test_monomial_to_basis_ND(c["N"].num()) : o.nd->test_paths_ND(c["trials"].num(), c["paths"].num());
        r.set("res", J::Bool(b));
    }
    else if (op == "save") { bool b = dosave(o, c); r.set("res", J::Bool(b)); r.set("files", listdir()); }
    else if (op == "crashsave") {
        // save in a process whose files may not grow beyond `limit` bytes: the process dies there (kill) or sees a failing write (fail)
        fflush(0);
        int fds[2];
        if (pipe(fds)) _exit(94);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = c["limit"].num();
            struct rlimit nc; nc.rlim_cur = nc.rlim_max = 0; setrlimit(RLIMIT_CORE, &nc);
            signal(SIGXFSZ, c["mode"].s == "kill" ? SIG_DFL : SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &rl);
            bool b = dosave(o, c);
            char ch = b ? '1' : '0';
            if (write(fds[1], &ch, 1) != 1) _exit(93);
            _exit(0);
        }
        close(fds[1]);
        char ch = 'd';
        if (read(fds[0], &ch, 1) != 1) ch = 'd';
        close(fds[0]);
        int st; while (waitpid(pid, &st, 0) < 0) {}
        r.set("res", J::Str(ch == '1' ? "true" : ch == '0' ? "false" : "died"));
        r.set("clean", J::Bool(WIFEXITED(st) && WEXITSTATUS(st) == 0));
        r.set("files", listdir());
    }
    else if (op == "fpow") {
        o.h->compute_fpow(c["power"].num());
        J a = J::Arr();
        for (long i = 0; i < o.h->fpow.length(); ++i) a.push(out(o.h->fpow[i]));
        r.set("res", a);
    }
    else if (op == "frob") {
        string how = c["how"].s;
        int64_t i = c["coord"].num(), N = c["N"].num(), loop = c.has("loop") ? c["loop"].num() : 0;
        Vec<ZZ_p> F;
        if (how == "J") F = o.h->frob_J(i, N);
        else if (how == "JZZ") F = o.h->frob_J_ZZ(i, N, loop);
        else if (how == "JZZp") F = o.h->frob_J_ZZ_p(i, N, loop);
        else if (how == "ND") F = o.hn->frob_ND(i, N);
        else if (how == "NDZZ") F = o.hn->frob_ND_ZZ(i, N, loop);
        else if (how == "NDZZp") F = o.hn->frob_ND_ZZ_p(i, N, loop);
        else if (how == "NDflint") F = o.hn->frob_ND_flint(i, N);
        else _exit(95);
        r.set("res", out(F));
    }
    else if (op == "frobvals") {
        // the coordinates of the forms x^(p (t + e + 1)) for all monomials t of degree j d, e the exponent of a basis element
        Mon e = D.coKernels_J_basis[c["coord"].num()];
        int64_t j = c["j"].num();
        Vec<Mon> T; tuple_list_generator(T, D.d * j, (int64_t)(D.n + 1));
        J us = J::Arr(), vs = J::Arr();
        for (long i = 0; i < T.length(); ++i) {
            Mon u = T[i];
            for (long k = 0; k <= D.n; ++k) u[k] = D.p * (u[k] + e[k] + 1);
            us.push(out(u)); vs.push(out(D.monomial_to_basis_J(u)));
        }
        r.set("us", us); r.set("res", vs);
    }
    else if (op == "frobmat") {
#ifdef _OPENMP
        if (c.has("threads")) omp_set_num_threads(c["threads"].num());
#endif
        Vec<int64_t> N = mon(c["N"]);
        Mat<ZZ_p> M = c.has("nd") && c["nd"].num() ? o.hn->frob_matrix_ND(N) : o.h->frob_matrix_J(N);
        r.set("res", out(M));
        r.set("sizes", sizes(o));
    }
    else if (op == "drop") { objs.erase(c["id"].num()); r.set("res", J::Bool(true)); }
    else if (op == "copy") { Obj q; if (o.nd) { q.nd = make_shared<de_Rham_non_degenerate_local>(*o.nd); q.dr = q.nd; } else q.dr = make_shared<de_Rham_local>(*o.dr); objs[c["to"].num()] = q; r.set("res", J::Bool(true)); }
    return true;
}
