// zeta_function in all its forms, and the frob program.
#include "common.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <fcntl.h>
#include <fstream>
#include <vector>

extern std::string vp_scratch();

static J result(const ZZX &z, const Mat<ZZ> &F) {
    J a = J::Arr();
    for (long i = 0; i <= deg(z); ++i) a.push(out(coeff(z, i)));
    J o = J::Obj();
    o.set("zeta", a);
    o.set("frob", out(F));
    return o;
}

bool ops_zeta(const string &op, const J &c, J &r) {
    if (op == "zeta") {
        string how = c.has("how") ? c["how"].s : "map";
        int64_t p = c.has("p") ? c["p"].num() : 0;
        bool verbose = c.has("verbose") && c["verbose"].num(), inc = !c.has("inc") || c["inc"].num(), better = !c.has("better") || c["better"].num();
        int threads = c.has("threads") ? c["threads"].num() : 1, abs = c.has("abs") ? c["abs"].num() : 0;
        ZZX z;
        Mat<ZZ> F;
        bool plain = !c.has("threads") && !c.has("verbose") && !c.has("abs") && !c.has("inc") && !c.has("better");
        if (how == "map") {
            MapZ f = mapz(c["f"]);
            if (plain) zeta_function(z, F, f, p); else zeta_function(z, F, f, p, verbose, threads, abs, inc, better);
        } else if (how == "text") {
            if (plain) zeta_function(z, F, c["text"].s.c_str()); else zeta_function(z, F, c["text"].s.c_str(), verbose, threads, abs, inc, better);
        } else {
            vector< vector<int64_t> > ms;
            vector<ZZ> cs;
            vector<int64_t> cs64;
            const J &M = c["mons"], &C = c["coefs"];
            for (size_t i = 0; i < M.size(); ++i) { vector<int64_t> m; for (size_t k = 0; k < M.at(i).size(); ++k) m.push_back(M.at(i).at(k).num()); ms.push_back(m); }
            for (size_t i = 0; i < C.size(); ++i) { ZZ x = zz(C.at(i)); cs.push_back(x); cs64.push_back(conv<long>(x)); }
            if (how == "list") { if (plain) zeta_function(z, F, ms, cs, p); else zeta_function(z, F, ms, cs, p, verbose, threads, abs, inc, better); }
            else if (how == "list64") { if (plain) zeta_function(z, F, ms, cs64, p); else zeta_function(z, F, ms, cs64, p, verbose, threads, abs, inc, better); }
            else _exit(95);
        }
        r.set("res", result(z, F));
        return true;
    }
    if (op == "prog") {
        // the frob program on an input file given line by line
        char self[4096];
        ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
        if (k <= 0) _exit(94);
        self[k] = 0;
        string dir(self);
        dir = dir.substr(0, dir.rfind('/')) + "/frob";
        string in = vp_scratch() + "/in.txt", ou = vp_scratch() + "/out.txt", th = c.has("threads") ? c["threads"].dec() : "1";
        unlink(ou.c_str());
        { ofstream f(in.c_str()); for (size_t i = 0; i < c["lines"].size(); ++i) f << c["lines"].at(i).s << (i + 1 < c["lines"].size() || !c.has("noeol") ? "\n" : ""); }
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            string tr = c.has("tries") ? c["tries"].dec() : "";
            if (c.has("tries")) execl(dir.c_str(), "frob", th.c_str(), in.c_str(), ou.c_str(), tr.c_str(), (char *)0);
            else execl(dir.c_str(), "frob", th.c_str(), in.c_str(), ou.c_str(), (char *)0);
            _exit(94);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0) {}
        r.set("exit", J::Str(WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 94 ? "notrun" : "fail") : WTERMSIG(st) == SIGABRT ? "abort" : "signal"));
        J v = J::Obj();
        ifstream f(ou.c_str());
        v.set("written", J::Bool(f.is_open()));
        if (f.is_open()) {
            int64_t p, prec, n, d, rank;
            Vec<ZZ> fo, fv, N, ap, cp;
            Mat<ZZ> M, Fr;
            f >> p >> prec >> n >> d >> fo >> N >> ap >> M >> fv >> Fr >> cp >> rank;
            v.set("good", J::Bool(!f.fail()));
            v.set("p", J::Int(p)); v.set("prec", J::Int(prec)); v.set("n", J::Int(n)); v.set("d", J::Int(d));
            v.set("forig", out(fo)); v.set("N", out(N)); v.set("ap", out(ap)); v.set("M", out(M)); v.set("f", out(fv)); v.set("frob", out(Fr)); v.set("zeta", out(cp)); v.set("rank", J::Int(rank));
        }
        r.set("res", v);
        return true;
    }
    return false;
}
