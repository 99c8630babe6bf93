// Minimal JSON reader/writer for the conformance driver.
#ifndef VP_JSON_H
#define VP_JSON_H
#include <string>
#include <vector>
#include <utility>
#include <cstdlib>
#include <cstdio>
#include <stdexcept>

struct J {
    enum T { NUL, BOOL, INT, STR, ARR, OBJ } t;
    long long i;
    std::string s;
    std::vector<J> a;
    std::vector< std::pair<std::string, J> > o;
    J() : t(NUL), i(0) {}
    static J Int(long long x) { J j; j.t = INT; j.i = x; return j; }
    static J Bool(bool x) { J j; j.t = BOOL; j.i = x; return j; }
    static J Str(const std::string &x) { J j; j.t = STR; j.s = x; return j; }
    static J Arr() { J j; j.t = ARR; return j; }
    static J Obj() { J j; j.t = OBJ; return j; }
    bool has(const std::string &k) const {
        for (size_t n = 0; n < o.size(); ++n) if (o[n].first == k) return true;
        return false;
    }
    const J &operator[](const std::string &k) const {
        for (size_t n = 0; n < o.size(); ++n) if (o[n].first == k) return o[n].second;
        throw std::runtime_error("missing field " + k);
    }
    const J &operator[](const char *k) const { return (*this)[std::string(k)]; }
    const J &at(size_t n) const { return a.at(n); }
    J &set(const std::string &k, const J &v) {
        for (size_t n = 0; n < o.size(); ++n) if (o[n].first == k) { o[n].second = v; return *this; }
        o.push_back(std::make_pair(k, v)); return *this;
    }
    J &push(const J &v) { a.push_back(v); return *this; }
    size_t size() const { return a.size(); }
    long long num() const {
        if (t == INT || t == BOOL) return i;
        if (t == STR) return atoll(s.c_str());
        throw std::runtime_error("not a number");
    }
    // decimal text of an integer given either as a number or as a string
    std::string dec() const {
        if (t == STR) return s;
        return std::to_string(i);
    }
    void dump(std::string &r) const {
        switch (t) {
            case NUL: r += "null"; break;
            case BOOL: r += i ? "true" : "false"; break;
            case INT: r += std::to_string(i); break;
            case STR:
                r += '"';
                for (size_t n = 0; n < s.size(); ++n) {
                    char c = s[n];
                    if (c == '"' || c == '\\') { r += '\\'; r += c; }
                    else if (c == '\n') r += "\\n";
                    else if (c == '\t') r += "\\t";
                    else r += c;
                }
                r += '"';
                break;
            case ARR:
                r += '[';
                for (size_t n = 0; n < a.size(); ++n) { if (n) r += ','; a[n].dump(r); }
                r += ']';
                break;
            case OBJ:
                r += '{';
                for (size_t n = 0; n < o.size(); ++n) {
                    if (n) r += ',';
                    r += '"'; r += o[n].first; r += "\":"; o[n].second.dump(r);
                }
                r += '}';
                break;
        }
    }
    std::string str() const { std::string r; dump(r); return r; }
};

struct JParser {
    const char *p;
    explicit JParser(const char *q) : p(q) {}
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
    J parse() {
        ws();
        J j;
        if (*p == '{') {
            j.t = J::OBJ; ++p; ws();
            if (*p == '}') { ++p; return j; }
            while (true) {
                ws(); J k = parse(); ws();
                if (*p != ':') throw std::runtime_error("json: ':' expected");
                ++p;
                j.o.push_back(std::make_pair(k.s, parse())); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return j; }
                throw std::runtime_error("json: object");
            }
        }
        if (*p == '[') {
            j.t = J::ARR; ++p; ws();
            if (*p == ']') { ++p; return j; }
            while (true) {
                j.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return j; }
                throw std::runtime_error("json: array");
            }
        }
        if (*p == '"') {
            j.t = J::STR; ++p;
            while (*p && *p != '"') {
                if (*p == '\\') {
                    ++p;
                    if (*p == 'n') j.s += '\n'; else if (*p == 't') j.s += '\t'; else j.s += *p;
                    ++p;
                } else j.s += *p++;
            }
            ++p; return j;
        }
        if (*p == 't') { p += 4; return J::Bool(true); }
        if (*p == 'f') { p += 5; return J::Bool(false); }
        if (*p == 'n') { p += 4; return j; }
        char *e; j.t = J::INT; j.i = strtoll(p, &e, 10);
        if (e == p) throw std::runtime_error(std::string("json: unexpected ") + p);
        p = e; return j;
    }
};
#endif
