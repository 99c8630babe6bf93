// Shared helpers of the conformance driver: JSON <-> NTL/FLINT/GMP values.
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "json.h"
#include "tools.h"
#include "matrix.h"
#include "solve_system.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
#include "wrapper.h"
#include <flint/fmpz_vec.h>
#include <NTL/ZZ.h>
#include <NTL/ZZX.h>
#include <NTL/ZZ_p.h>
#include <NTL/lzz_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/mat_ZZ_p.h>
#include <sstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
using namespace std;
using namespace NTL;

typedef Vec<int64_t> Mon;
typedef map<Mon, ZZ_p, vi64less> MapP;
typedef map<Mon, zz_p, vi64less> Mapp;
typedef map<Mon, ZZ, vi64less> MapZ;

inline string dec(const ZZ &z) { stringstream s; s << z; return s.str(); }
inline ZZ zz(const J &j) { ZZ r; conv(r, j.dec().c_str()); return r; }

// Residues are printed as JSON integers when the modulus is small enough for TLC's native products,
// and as decimal strings otherwise; integers over ZZ are always strings.
inline bool small_mod() { return ZZ_p::modulus() <= 46339; }
inline J out(const ZZ_p &x) { if (small_mod()) return J::Int(conv<long>(rep(x))); return J::Str(dec(rep(x))); }
inline J out(const zz_p &x) { if (zz_p::modulus() < (1L << 31)) return J::Int(rep(x)); return J::Str(std::to_string(rep(x))); }
inline J out(const ZZ &x) { return J::Str(dec(x)); }
inline J outmod(const ZZ &x) { ZZ y = x % ZZ_p::modulus(); if (small_mod()) return J::Int(conv<long>(y)); return J::Str(dec(y)); }
inline J out(int64_t x) { return J::Int(x); }
inline J out(bool x) { return J::Bool(x); }
template<class T> J out(const Vec<T> &v) { J a = J::Arr(); for (long i = 0; i < v.length(); ++i) a.push(out(v[i])); return a; }
template<class T> J out(const Mat<T> &m) { J a = J::Arr(); for (long i = 0; i < m.NumRows(); ++i) a.push(out(m[i])); return a; }
inline J outmod(const Vec<ZZ> &v) { J a = J::Arr(); for (long i = 0; i < v.length(); ++i) a.push(outmod(v[i])); return a; }
inline J outmod(const Mat<ZZ> &v) { J a = J::Arr(); for (long i = 0; i < v.NumRows(); ++i) a.push(outmod(v[i])); return a; }
template<class T> J out(const map<Mon, T, vi64less> &f) {
    J a = J::Arr();
    for (typename map<Mon, T, vi64less>::const_iterator it = f.begin(); it != f.end(); ++it) {
        J t = J::Arr(); t.push(out(it->first)); t.push(out(it->second)); a.push(t);
    }
    return a;
}
inline Mon mon(const J &j) { Mon m; m.SetLength(j.size()); for (size_t i = 0; i < j.size(); ++i) m[i] = j.at(i).num(); return m; }
inline Vec<ZZ> vzz(const J &j) { Vec<ZZ> v; v.SetLength(j.size()); for (size_t i = 0; i < j.size(); ++i) v[i] = zz(j.at(i)); return v; }
inline Vec<ZZ_p> vzzp(const J &j) { return conv< Vec<ZZ_p> >(vzz(j)); }
inline Vec<zz_p> vlzp(const J &j) { Vec<zz_p> v; v.SetLength(j.size()); for (size_t i = 0; i < j.size(); ++i) conv(v[i], zz(j.at(i))); return v; }
// a matrix is {"r":rows,"c":cols,"m":[[..],..]} or [[..],..]
inline Mat<ZZ> mzz(const J &j0) {
    Mat<ZZ> m; const J &j = j0.t == J::OBJ ? j0["m"] : j0;
    long r = j0.t == J::OBJ ? j0["r"].num() : (long)j.size();
    long c = j0.t == J::OBJ ? j0["c"].num() : (r ? (long)j.at(0).size() : 0);
    m.SetDims(r, c);
    for (long i = 0; i < r; ++i) for (long k = 0; k < c; ++k) m[i][k] = zz(j.at(i).at(k));
    return m;
}
inline Mat<ZZ_p> mzzp(const J &j) { return conv< Mat<ZZ_p> >(mzz(j)); }
inline Mat<zz_p> mlzp(const J &j) { return conv< Mat<zz_p> >(mzz(j)); }
inline MapZ mapz(const J &j) { MapZ f; for (size_t i = 0; i < j.size(); ++i) f[mon(j.at(i).at(0))] = zz(j.at(i).at(1)); return f; }
inline MapP mapP(const J &j) { MapP f; for (size_t i = 0; i < j.size(); ++i) f[mon(j.at(i).at(0))] = conv<ZZ_p>(zz(j.at(i).at(1))); return f; }
inline Mapp mapp(const J &j) { Mapp f; for (size_t i = 0; i < j.size(); ++i) f[mon(j.at(i).at(0))] = conv<zz_p>(zz(j.at(i).at(1))); return f; }

// groups of operations; each returns true when it knew the operation
bool ops_tools(const string &op, const J &c, J &r);
bool ops_linalg(const string &op, const J &c, J &r);
bool ops_dr(const string &op, const J &c, J &r);
bool ops_zeta(const string &op, const J &c, J &r);
#endif
