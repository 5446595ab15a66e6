// Trace logging for the conformance harnesses: one ndjson line per event and rank,
// {"a":{event name and arguments, identical on all ranks},"l":{rank-local observations}}
#ifndef VTRACE_H
#define VTRACE_H
#include "qdp.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#ifdef ARCH_PARSCALAR
#include "qmp.h"
#endif

using std::string; using std::vector;
namespace vt {
using std::string; using std::vector;
typedef vector<double> dvec;
typedef vector<long long> ivec;

// integers are logged exactly up to 1e9; everything else becomes a sentinel > 2e9
inline long long enc(double v) {
  if (std::isnan(v)) return 2000000002LL;
  if (std::isinf(v)) return v > 0 ? 2000000003LL : 2000000004LL;
  if (v != std::floor(v) || std::fabs(v) > 1.0e9) {
    // keep some information so that different wrong values look different
    union { double d; unsigned long long u; } x; x.d = v;
    return 2000000010LL + (long long)((x.u ^ (x.u >> 29)) % 100000000ULL);
  }
  return (long long)v;
}

inline string jstr(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline FILE*& file() { static FILE* f = 0; return f; }
inline int myrank() {
#ifdef ARCH_PARSCALAR
  return QMP_get_node_number();
#else
  return 0;
#endif
}
inline int nranks() {
#ifdef ARCH_PARSCALAR
  return QMP_get_number_of_nodes();
#else
  return 1;
#endif
}
// call after QDP_initialize (or QMP start)
inline void open() {
  if (file()) return;
  const char* p = getenv("VT_OUT");
  string n = string(p ? p : "trace") + "." + std::to_string(myrank());
  file() = fopen(n.c_str(), "w");
  if (!file()) { perror(n.c_str()); exit(97); }
}

struct Ev {
  string a, l;
  explicit Ev(const string& e) { a = "\"e\":" + jstr(e); }
  static string num(long long v) {
    if (v > 2147483000LL || v < -2147483000LL) v = 2000000007LL;
    return std::to_string(v);
  }
  template<class V> static string vec(const V& v) {
    string o = "["; bool first = true;
    for (auto x : v) { if (!first) o += ','; first = false; o += num((long long)x); }
    return o + "]";
  }
  static string dv(const dvec& v) {
    string o = "["; bool first = true;
    for (double x : v) { if (!first) o += ','; first = false; o += num(enc(x)); }
    return o + "]";
  }
  static string dvv(const vector<dvec>& v) {
    string o = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += dv(v[i]); }
    return o + "]";
  }
  Ev& raw(const char* k, const string& j) { a += string(",\"") + k + "\":" + j; return *this; }
  Ev& i(const char* k, long long v) { return raw(k, num(v)); }
  Ev& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  Ev& s(const char* k, const string& v) { return raw(k, jstr(v)); }
  template<class V> Ev& v(const char* k, const V& x) { return raw(k, vec(x)); }
  Ev& d(const char* k, const dvec& x) { return raw(k, dv(x)); }
  Ev& dd(const char* k, const vector<dvec>& x) { return raw(k, dvv(x)); }
  // rank-local
  Ev& lraw(const char* k, const string& j) { if (!l.empty()) l += ','; l += string("\"") + k + "\":" + j; return *this; }
  Ev& li(const char* k, long long v) { return lraw(k, num(v)); }
  Ev& lb(const char* k, bool v) { return lraw(k, v ? "true" : "false"); }
  Ev& ls(const char* k, const string& v) { return lraw(k, jstr(v)); }
  template<class V> Ev& lv(const char* k, const V& x) { return lraw(k, vec(x)); }
  Ev& ldd(const char* k, const vector<dvec>& x) { return lraw(k, dvv(x)); }
  template<class VV> static string vecvec(const VV& x) {
    string o = "["; bool f = true;
    for (auto& y : x) { if (!f) o += ','; f = false; o += vec(y); }
    return o + "]";
  }
  template<class VV> Ev& vv(const char* k, const VV& x) { return raw(k, vecvec(x)); }
  template<class VV> Ev& lvv(const char* k, const VV& x) { return lraw(k, vecvec(x)); }
  ~Ev() {
    open();
    fprintf(file(), "{\"a\":{%s},\"l\":{%s}}\n", a.c_str(), l.c_str());
    fflush(file());
  }
};

// ---- flattening of site elements: spin (row major), colour (row major), re/im
inline void flat(float x, dvec& o) { o.push_back(x); }
inline void flat(double x, dvec& o) { o.push_back(x); }
inline void flat(int x, dvec& o) { o.push_back(x); }
inline void flat(unsigned x, dvec& o) { o.push_back(x); }
inline void flat(bool x, dvec& o) { o.push_back(x ? 1 : 0); }
template<class T, int N> void flat(const QDP::PSpinVector<T,N>& x, dvec& o);
template<class T> void flat(const QDP::RScalar<T>& x, dvec& o); template<class T> void flat(const QDP::RComplex<T>& x, dvec& o);
template<class T> void flat(const QDP::PScalar<T>& x, dvec& o); template<class T> void flat(const QDP::PSeed<T>& x, dvec& o);
template<class T, int N, template<class,int> class C> void flat(const QDP::PVector<T,N,C>& x, dvec& o);
template<class T, int N, template<class,int> class C> void flat(const QDP::PMatrix<T,N,C>& x, dvec& o);
template<class T> void flat(const QDP::RScalar<T>& x, dvec& o) { flat(x.elem(), o); }
template<class T> void flat(const QDP::RComplex<T>& x, dvec& o) { flat(x.real(), o); flat(x.imag(), o); }
template<class T> void flat(const QDP::PScalar<T>& x, dvec& o) { flat(x.elem(), o); }
template<class T> void flat(const QDP::PSeed<T>& x, dvec& o) { for (int i = 0; i < 4; ++i) flat(x.elem(i), o); }
template<class T, int N, template<class,int> class C> void flat(const QDP::PVector<T,N,C>& x, dvec& o) { for (int i = 0; i < N; ++i) flat(x.elem(i), o); }
template<class T, int N, template<class,int> class C> void flat(const QDP::PMatrix<T,N,C>& x, dvec& o) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) flat(x.elem(i, j), o); }
template<class T, int N> void flat(const QDP::PSpinVector<T,N>& x, dvec& o) { for (int i = 0; i < N; ++i) flat(x.elem(i), o); }
template<class T> void flat(const QDP::OScalar<T>& x, dvec& o) { flat(x.elem(), o); }
template<class T> dvec flatv(const T& x) { dvec o; flat(x, o); return o; }

struct Src { const dvec& v; size_t p; explicit Src(const dvec& x) : v(x), p(0) {} double next() { return v.at(p++); } };
inline void unflat(float& x, Src& s) { x = (float)s.next(); }
inline void unflat(double& x, Src& s) { x = s.next(); }
inline void unflat(int& x, Src& s) { x = (int)s.next(); }
inline void unflat(bool& x, Src& s) { x = ((long long)s.next() & 1) != 0; }
template<class T, int N> void unflat(QDP::PSpinVector<T,N>& x, Src& s);
template<class T> void unflat(QDP::RScalar<T>& x, Src& s); template<class T> void unflat(QDP::RComplex<T>& x, Src& s);
template<class T> void unflat(QDP::PScalar<T>& x, Src& s); template<class T> void unflat(QDP::PSeed<T>& x, Src& s);
template<class T, int N, template<class,int> class C> void unflat(QDP::PVector<T,N,C>& x, Src& s);
template<class T, int N, template<class,int> class C> void unflat(QDP::PMatrix<T,N,C>& x, Src& s);
template<class T> void unflat(QDP::RScalar<T>& x, Src& s) { unflat(x.elem(), s); }
template<class T> void unflat(QDP::RComplex<T>& x, Src& s) { unflat(x.real(), s); unflat(x.imag(), s); }
template<class T> void unflat(QDP::PScalar<T>& x, Src& s) { unflat(x.elem(), s); }
template<class T> void unflat(QDP::PSeed<T>& x, Src& s) { for (int i = 0; i < 4; ++i) unflat(x.elem(i), s); }
template<class T, int N, template<class,int> class C> void unflat(QDP::PVector<T,N,C>& x, Src& s) { for (int i = 0; i < N; ++i) unflat(x.elem(i), s); }
template<class T, int N, template<class,int> class C> void unflat(QDP::PMatrix<T,N,C>& x, Src& s) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) unflat(x.elem(i, j), s); }
template<class T, int N> void unflat(QDP::PSpinVector<T,N>& x, Src& s) { for (int i = 0; i < N; ++i) unflat(x.elem(i), s); }
template<class T> void unflat(QDP::OScalar<T>& x, Src& s) { unflat(x.elem(), s); }

template<class T> vector<dvec> flatl(const QDP::OLattice<T>& f) {
  vector<dvec> r(QDP::Layout::sitesOnNode());
  for (size_t i = 0; i < r.size(); ++i) flat(f.elem(i), r[i]);
  return r;
}

inline unsigned long long hash64(unsigned long long x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
inline unsigned long long seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, 0, 10) : 1; }

// global lexicographic index, first direction fastest (independent of the library)
inline long lexi(const QDP::multi1d<int>& x, const QDP::multi1d<int>& L) {
  long r = 0; for (int m = L.size() - 1; m >= 0; --m) r = r * L[m] + x[m]; return r;
}
// coordinates of the sites of this node in local order
inline vector<vector<int> > mysites() {
  vector<vector<int> > o(QDP::Layout::sitesOnNode());
  for (size_t i = 0; i < o.size(); ++i) {
    QDP::multi1d<int> x = QDP::Layout::siteCoords(QDP::Layout::nodeNumber(), i);
    for (int m = 0; m < x.size(); ++m) o[i].push_back(x[m]);
  }
  return o;
}
inline vector<int> tov(const QDP::multi1d<int>& x) { vector<int> o; for (int m = 0; m < x.size(); ++m) o.push_back(x[m]); return o; }
inline QDP::multi1d<int> tom(const vector<int>& x) { QDP::multi1d<int> o(x.size()); for (size_t m = 0; m < x.size(); ++m) o[m] = x[m]; return o; }

// "4,4,2,2" -> extents
inline QDP::multi1d<int> parsedims(const char* s) {
  vector<int> v; std::stringstream ss(s); string t;
  while (std::getline(ss, t, ',')) v.push_back(atoi(t.c_str()));
  return tom(v);
}
inline string arg(int argc, char** argv, const char* key, const char* def) {
  string k = string("--") + key + "=";
  for (int i = 1; i < argc; ++i) if (string(argv[i]).compare(0, k.size(), k) == 0) return string(argv[i]).substr(k.size());
  return def;
}
} // namespace vt
#endif
