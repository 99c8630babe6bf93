// Conformance driver: executes sessions of commands (generated from the TLA+ specifications) against the real code and records
// one trace line per session.  Each session runs in a child process of its own; if the child dies (assert, abort, signal, timeout)
// the trace records that as an event, so that a crash is just another observable outcome.
#include "common.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/file.h>
#include <chrono>
#include <fstream>
#include <errno.h>
#include <string.h>

int trace_fd = -1;

static void put(const string &s) {
    size_t n = 0;
    while (n < s.size()) {
        ssize_t k = write(trace_fd, s.data() + n, s.size() - n);
        if (k <= 0) { if (errno == EINTR) continue; _exit(97); }
        n += k;
    }
}

static bool dispatch(const J &c, J &r);

// runs commands in a process of its own, forked from this one as it is; the records of those that returned are the result
static void apart(const J &c, J &r) {
    int fds[2];
    if (pipe(fds)) _exit(96);
    pid_t pid = fork();
    if (pid < 0) _exit(96);
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fds[0]);
        trace_fd = fds[1];
        alarm(60);
        for (size_t i = 0; i < c["cmds"].size(); ++i) {
            J x = c["cmds"].at(i);
            if (!dispatch(c["cmds"].at(i), x)) _exit(96);
            put(x.str() + "\n");
        }
        _exit(0);
    }
    close(fds[1]);
    string buf;
    char tmp[65536];
    ssize_t k;
    while ((k = read(fds[0], tmp, sizeof tmp)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } buf.append(tmp, k); }
    close(fds[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    J a = J::Arr();
    for (size_t pos = 0, e; (e = buf.find('\n', pos)) != string::npos; pos = e + 1) a.push(JParser(buf.substr(pos, e - pos).c_str()).parse());
    r.set("res", a);
    r.set("n", J::Int(c["cmds"].size()));
    J none = J::Arr();
    r.set("cmds", none);
}

static bool dispatch(const J &c, J &r) {
    const string op = c["op"].s;
    if (op == "apart") { apart(c, r); return true; }
    if (op == "ctx") {
        int64_t p = c["p"].num(), k = c.has("prec") ? c["prec"].num() : 1;
        zz_p::init(p);
        ZZ_p::init(power_ZZ(p, k));
        if (c.has("seed")) SetSeed(zz(c["seed"]));
        r.set("res", J::Bool(true));
        return true;
    }
    if (op == "ctxmod") {  // arbitrary modulus
        ZZ_p::init(zz(c["m"]));
        r.set("res", J::Bool(true));
        return true;
    }
    if (op == "seed") { SetSeed(zz(c["seed"])); r.set("res", J::Bool(true)); return true; }
    return ops_tools(op, c, r) || ops_linalg(op, c, r) || ops_dr(op, c, r) || ops_zeta(op, c, r);
}

static void child(const J &s) {
    int nul = open(getenv("DRIVER_STDERR") ? getenv("DRIVER_STDERR") : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(nul, 1);
    if (!getenv("VP_STDERR")) dup2(nul, 2);
    for (size_t i = 0; i < s["cmds"].size(); ++i) {
        const J &c = s["cmds"].at(i);
        J r = c;
        bool known = false;
        try { known = dispatch(c, r); }
        catch (std::exception &e) { r.set("exc", J::Str(e.what())); known = true; }
        if (!known) { r.set("exc", J::Str("unknown op")); }
        put(r.str() + "\n");
    }
    _exit(0);
}

// sessions are handed out one after another: the number of the next one is kept in a locked file
static long next_claim(const char *path) {
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || flock(fd, LOCK_EX)) { perror("claim"); _exit(2); }
    char b[32] = {0};
    long v = pread(fd, b, 31, 0) > 0 ? atol(b) : 0;
    string w = to_string(v + 1);
    if (pwrite(fd, w.c_str(), w.size(), 0) < 0) _exit(2);
    close(fd);
    return v;
}

int main(int argc, char **argv) {
    if (argc < 3) { cerr << "usage: driver SESSIONS.ndjson TRACE.ndjson [shard nshards]" << endl; return 2; }
    long shard = argc > 4 ? atol(argv[3]) : 0, nsh = argc > 4 ? atol(argv[4]) : 1;
    ifstream in(argv[1]);
    FILE *outf = fopen(argv[2], "w");
    if (!in || !outf) { cerr << "cannot open files" << endl; return 2; }
    string line;
    long n = 0, mine = -1;
    const char *claim = getenv("DRIVER_CLAIM");
    while (getline(in, line)) {
        if (line.empty()) continue;
        if (claim) {
            if (mine < n) mine = next_claim(claim);
            if (n++ != mine) continue;
        } else if (n++ % nsh != shard) continue;
        auto t0 = std::chrono::steady_clock::now();
        J s;
        try { s = JParser(line.c_str()).parse(); } catch (std::exception &e) { cerr << "bad session: " << e.what() << endl; return 2; }
        int fds[2];
        if (pipe(fds)) return 2;
        fflush(outf);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            close(fds[0]);
            trace_fd = fds[1];
            setpgid(0, 0);
            long limit = s.has("timeout") ? s["timeout"].num() : 300;
            if (const char *cap = getenv("DRIVER_CAP")) limit = min(limit, atol(cap));
            // after a first session that hung the others are only given a short time (they are run again alone before anything is reported)
            if (claim && access((string(claim) + ".hung").c_str(), F_OK) == 0) limit = min(limit, 30L);
            alarm(limit);
            child(s);
        }
        close(fds[1]);
        string buf;
        char tmp[65536];
        ssize_t k;
        while ((k = read(fds[0], tmp, sizeof tmp)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } buf.append(tmp, k); }
        close(fds[0]);
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        string ev;
        long cnt = 0;
        size_t pos = 0;
        while (true) {
            size_t e = buf.find('\n', pos);
            if (e == string::npos) break;
            if (cnt++) ev += ',';
            ev.append(buf, pos, e - pos);
            pos = e + 1;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            // the command that killed the session is recorded with its arguments and the outcome
            J d = cnt < (long)s["cmds"].size() ? s["cmds"].at(cnt) : J::Obj().set("op", J::Str("exit"));
            int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            if (sig == SIGALRM && claim)
                if (FILE *h = fopen((string(claim) + ".hung").c_str(), "w")) fclose(h);
            d.set("died", J::Str(sig == SIGABRT ? "abort" : sig == SIGALRM ? "timeout" : sig == SIGSEGV || sig == SIGBUS ? "segv" : sig ? "signal" : "exit"));
            d.set("code", J::Int(sig ? sig : WEXITSTATUS(st)));
            if (cnt++) ev += ',';
            ev += d.str();
        }
        string head = "{\"sid\":" + s["sid"].str();
        for (size_t q = 0; q < s.o.size(); ++q)
            if (s.o[q].first != "sid" && s.o[q].first != "cmds") head += ",\"" + s.o[q].first + "\":" + s.o[q].second.str();
        fprintf(outf, "%s,\"ncmds\":%ld,\"ev\":[%s]}\n", head.c_str(), (long)s["cmds"].size(), ev.c_str());
        if (const char *tf = getenv("DRIVER_TIMES"))
            if (FILE *t = fopen(tf, "a")) {
                fprintf(t, "%s %ld ms\n", s["sid"].str().c_str(), (long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
                fclose(t);
            }
    }
    fclose(outf);
    return 0;
}
