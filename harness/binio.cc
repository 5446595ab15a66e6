// Replays histories of binary stream operations.  --script
#include "vtrace.h"
#include <fstream>
#include <unistd.h>
#include <list>
#include <map>
using namespace QDP;
typedef std::complex<float> cf; typedef std::complex<double> cd;
static string J(const char* k, const string& rest) { return string("{\"k\":\"") + k + "\"" + rest + "}"; }
static string bytesj(const string& s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return vt::Ev::vec(v); }
#include <functional>
struct Rng;
template<class T> string js(const multi1d<T>& d); template<class T> string js(const std::vector<T>& d); template<class T> string js(const std::list<T>& d); template<class K, class V> string js(const std::map<K, V>& d);
template<class A, class B> string js(const std::pair<A, B>& p); template<class T> string js(const std::complex<T>& x); template<class T> string js(const OScalar<T>& x);
template<class T> void gen(std::complex<T>& x, Rng& r); template<class A, class B> void gen(std::pair<A, B>& p, Rng& r); template<class T> void gen(OScalar<T>& x, Rng& r); template<class T> void gen(multi1d<T>& d, Rng& r);
// ---- random values, and their description independent of the host's byte order
struct Rng { unsigned long long s; Rng(unsigned long long x) : s(vt::hash64(x)) {} unsigned long long next() { s = vt::hash64(s + 1); return s; } };
static string sig(unsigned long long u, int n) { vector<int> b; for (int i = n - 1; i >= 0; --i) b.push_back((u >> (8 * i)) & 255); return J("p", ",\"b\":" + vt::Ev::vec(b)); }
template<class T> struct IsInt { enum { v = std::is_integral<T>::value }; };
template<class T> typename std::enable_if<std::is_integral<T>::value>::type gen(T& x, Rng& r) { unsigned long long u = r.next(); int m = u % 5; u >>= 8; x = m == 0 ? T(0) : m == 1 ? T(-1) : m == 2 ? T(u & 255) : T(u); }
template<> inline void gen<bool>(bool& x, Rng& r) { x = (r.next() >> 20) & 1; }
template<class T> typename std::enable_if<std::is_integral<T>::value, string>::type js(const T& x) { return sig((unsigned long long)x, sizeof(T)); }
inline void gen(float& x, Rng& r) { union { float f; unsigned u; } c; c.u = r.next() >> 7; if ((c.u & 0x7f800000u) == 0x7f800000u) c.u ^= 0x00800000u; x = c.f; }
inline string js(const float& x) { unsigned u; memcpy(&u, &x, 4); return sig(u, 4); }
inline void gen(double& x, Rng& r) { union { double f; unsigned long long u; } c; c.u = r.next(); if ((c.u >> 52 & 0x7ff) == 0x7ff) c.u ^= 1ULL << 52; x = c.f; }
inline string js(const double& x) { unsigned long long u; memcpy(&u, &x, 8); return sig(u, 8); }
inline string arr(const vector<string>& v) { string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += v[i]; } return o + "]"; }
template<class T> void gen(std::complex<T>& x, Rng& r) { T a, b; gen(a, r); gen(b, r); x = std::complex<T>(a, b); }
template<class T> string js(const std::complex<T>& x) { return J("raw", ",\"v\":" + arr({js(x.real()), js(x.imag())})); }
inline void gens(string& s, int n, Rng& r, bool line) { s.clear(); for (int i = 0; i < n; ++i) { int c = r.next() & 255; if (line && (c == 0 || c == 10)) c = 65; s += (char)c; } }
template<class V> string seq(const char* k, const V& d) { vector<string> o; for (auto& x : d) o.push_back(js(x)); return J(k, ",\"v\":" + arr(o)); }
template<class A, class B> string js(const std::pair<A, B>& p) { return J("raw", ",\"v\":" + arr({js(p.first), js(p.second)})); }
template<class A, class B> void gen(std::pair<A, B>& p, Rng& r) { gen(p.first, r); gen(p.second, r); }
template<class T> string js(const multi1d<T>& d) { vector<string> o; for (int i = 0; i < d.size(); ++i) o.push_back(js(d[i])); return J("seq", ",\"v\":" + arr(o)); }
template<class T> string js(const std::vector<T>& d) { return seq("seq", d); }
template<class T> string js(const std::list<T>& d) { return seq("seq", d); }
template<class K, class V> string js(const std::map<K, V>& d) { return seq("seq", d); }
// QDP scalars: their words in order
template<class T> string js(const OScalar<T>& x) { typedef typename WordType<OScalar<T> >::Type_t W; vt::dvec dummy; vector<string> o; const W* p = (const W*)&x.elem(); for (size_t i = 0; i < sizeof(T) / sizeof(W); ++i) o.push_back(js(p[i])); return J("raw", ",\"v\":" + arr(o)); }
template<class T> void gen(OScalar<T>& x, Rng& r) { typedef typename WordType<OScalar<T> >::Type_t W; W* p = (W*)&x.elem(); for (size_t i = 0; i < sizeof(T) / sizeof(W); ++i) gen(p[i], r); }
template<class T> void gen(multi1d<T>& d, Rng& r) { for (int i = 0; i < d.size(); ++i) gen(d[i], r); }
// a description of the logical content of spin-colour objects by index, to pin the order of the words
// ---- the stream under test
struct Obj {
  string kind; BinaryReader* r; BinaryWriter* w; BinaryFileReader* fr; BinaryFileWriter* fw; BinaryFileReaderWriter* frw; BinaryBufferReader* br; BinaryBufferWriter* bw; BinaryBufferReaderWriter* brw;
  Obj() { zero(); }
  void zero() { kind = ""; r = 0; w = 0; fr = 0; fw = 0; frw = 0; br = 0; bw = 0; brw = 0; }
  bool fail() { return fr ? fr->fail() : fw ? fw->fail() : frw ? frw->fail() : br ? br->fail() : bw ? bw->fail() : brw->fail(); }
  long pos() { return fr ? (long)fr->currentPosition() : fw ? (long)fw->currentPosition() : frw ? (long)frw->currentPosition() : br ? (long)br->currentPosition() : bw ? (long)bw->currentPosition() : (long)brw->currentPosition(); }
  unsigned crc() { return fr ? fr->getChecksum() : fw ? fw->getChecksum() : frw ? frw->getChecksum() : br ? br->getChecksum() : bw ? bw->getChecksum() : brw->getChecksum(); }
#define ALL(X) if (fr) fr->X; else if (fw) fw->X; else if (frw) frw->X; else if (br) br->X; else if (bw) bw->X; else brw->X;
  void reset() { ALL(resetChecksum()) }
  void abs(long p) { ALL(seek(p)) } void beg(long p) { ALL(seekBegin(p)) } void rel(long p) { ALL(seekRelative(p)) } void end(long p) { ALL(seekEnd(p)) } void rewind() { ALL(rewind()) }
  string str() { return br ? br->str() : bw ? bw->str() : brw->str(); } string prim() { return br ? br->strPrimaryNode() : bw ? bw->strPrimaryNode() : brw->strPrimaryNode(); }
  bool is_open() { return fr ? fr->is_open() : fw ? fw->is_open() : frw ? frw->is_open() : false; }
  void del() { delete fr; delete fw; delete frw; delete br; delete bw; delete brw; zero(); }
} o;
static string fname, content; // content: bytes of the last file closed
static vector<long> start;    // where item k begins, as seen when it was written (1-based, last: end)
static vector<long> fstart;
static string slurp() { std::ifstream f(fname.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
static string diskj() { string s; if (Layout::primaryNode()) s = slurp(); QDPInternal::broadcast(s); content = s; return bytesj(s); }
static void q(vt::Ev& e, int on) {
  if (!on) { e.raw("q", "[]"); return; }
  long p = o.pos(); unsigned c = o.crc(); e.v("q", vector<int>{(int)p, int(c >> 16), int(c & 65535), o.fail() ? 1 : 0});
}
// one item: write or read it in one of the ways the library offers
struct Way { bool wr; int how; Rng r; vt::Ev* e; bool kept; };
static Way* W;
static void done(const string& j) { W->e->raw("v", j); }
template<class T> void viaOp(T& x) { if (W->wr) *o.w << x; else *o.r >> x; }
template<class T> void viaMem(T& x) { if (W->wr) o.w->write(x); else o.r->read(x); }
template<class T> void viaFree(T& x) { if (W->wr) write(*o.w, x); else read(*o.r, x); }
template<class T> void prim(int how) { T x = T(); gen(x, W->r); if (!W->wr) x = T(1); string before = js(x);
  if (how == 1) viaMem(x); else if (how == 2) viaOp(x); else viaFree(x);
  done(js(x)); if (W->wr && js(x) != before) W->kept = false; }
template<> void prim<cf>(int) { cf x; gen(x, W->r); if (!W->wr) x = 0; viaFree(x); done(js(x)); }
template<> void prim<cd>(int) { cd x; gen(x, W->r); if (!W->wr) x = 0; viaFree(x); done(js(x)); }
template<> void prim<char>(int how) { char x; gen(x, W->r); if (!W->wr) x = 1; if (how == 1) viaMem(x); else if (W->wr) write(*o.w, x); else if (how == 2) *o.r >> x; else read(*o.r, x); done(js(x)); }
template<class C> void cont(C& c, C& junk, std::function<string(const C&)> d) {
  if (W->wr) { string b = d(c); write(*o.w, c); if (d(c) != b) W->kept = false; done(b); } else { read(*o.r, junk); done(d(junk)); } }
#include <functional>
template<class T> struct Elem {
  static string row(const vector<string>& v, const vector<int>& n, const char* k) { return J(k, ",\"n\":" + vt::Ev::vec(n) + ",\"v\":" + arr(v)); }
  static string j2(const multi2d<T>& d) { vector<string> v; for (int a = 0; a < d.size2(); ++a) for (int b = 0; b < d.size1(); ++b) v.push_back(js(d[a][b])); return row(v, {d.size2(), d.size1()}, "nd"); }
  static string j3(const multi3d<T>& d) { vector<string> v; for (int a = 0; a < d.size3(); ++a) for (int b = 0; b < d.size2(); ++b) for (int c = 0; c < d.size1(); ++c) v.push_back(js(d[a][b][c])); return row(v, {d.size3(), d.size2(), d.size1()}, "nd"); }
  static string j4(const multi4d<T>& d) { vector<string> v; for (int a = 0; a < d.size4(); ++a) for (int b = 0; b < d.size3(); ++b) for (int c = 0; c < d.size2(); ++c) for (int e = 0; e < d.size1(); ++e) v.push_back(js(d[a][b][c][e])); return row(v, {d.size4(), d.size3(), d.size2(), d.size1()}, "nd"); }
  static string j5(const multi5d<T>& d) { vector<string> v; for (int a = 0; a < d.size5(); ++a) for (int b = 0; b < d.size4(); ++b) for (int c = 0; c < d.size3(); ++c) for (int e = 0; e < d.size2(); ++e) for (int f = 0; f < d.size1(); ++f) v.push_back(js(d[a][b][c][e][f])); return row(v, {d.size5(), d.size4(), d.size3(), d.size2(), d.size1()}, "nd"); }
  static string jn(const multiNd<T>& d) { vector<string> v; vector<int> n; for (int i = 0; i < d.size().size(); ++i) n.push_back(d.size()[i]);
    multi1d<int> x(n.size()); x = 0; long tot = 1; for (int m : n) tot *= m;
    for (long p = 0; p < tot; ++p) { long q = p; for (int m = n.size() - 1; m >= 0; --m) { x[m] = q % n[m]; q /= n[m]; } v.push_back(js(d[x])); }
    return row(v, n, "Nd"); }
};
template<class T> bool container(const string& s, const vector<int>& n) {
  typedef Elem<T> E; Rng& r = W->r;
  if (s == "A1") { multi1d<T> d(n[0]), z(3); gen(d, r); cont<multi1d<T> >(d, z, [](const multi1d<T>& x) { return js(x); }); }
  else if (s == "A2") { multi2d<T> d(n[0], n[1]), z(1, 2); for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) gen(d[a][b], r); cont<multi2d<T> >(d, z, E::j2); }
  else if (s == "A3") { multi3d<T> d(n[0], n[1], n[2]), z(1, 2, 1); for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) for (int c = 0; c < n[2]; ++c) gen(d[a][b][c], r); cont<multi3d<T> >(d, z, E::j3); }
  else if (s == "A4") { multi4d<T> d, z; d.resize(n[0], n[1], n[2], n[3]); for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) for (int c = 0; c < n[2]; ++c) for (int e = 0; e < n[3]; ++e) gen(d[a][b][c][e], r); cont<multi4d<T> >(d, z, E::j4); }
  else if (s == "A5") { multi5d<T> d, z; d.resize(n[0], n[1], n[2], n[3], n[4]); for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) for (int c = 0; c < n[2]; ++c) for (int e = 0; e < n[3]; ++e) for (int f = 0; f < n[4]; ++f) gen(d[a][b][c][e][f], r); cont<multi5d<T> >(d, z, E::j5); }
  else if (s == "AN") { multiNd<T> d, z; multi1d<int> sz = vt::tom(n); d.resize(sz); for (int i = 0; i < d.numElem(); ++i) gen(d.getElem(i), r); multi1d<int> one(1); one = 2; z.resize(one); cont<multiNd<T> >(d, z, E::jn); }
  else if (s == "V") { std::vector<T> d(n[0]), z(2); for (auto& x : d) gen(x, r); cont<std::vector<T> >(d, z, [](const std::vector<T>& x) { return js(x); }); }
  else if (s == "L") { std::list<T> d(n[0]), z(2); for (auto& x : d) gen(x, r); cont<std::list<T> >(d, z, [](const std::list<T>& x) { return js(x); }); }
  else if (s == "O") { Array1dO<T> d, z; d.resize(n[0]); for (int i = 1; i <= n[0]; ++i) gen(d[i], r); cont<Array1dO<T> >(d, z, [](const Array1dO<T>& x) { vector<string> v; for (int i = 1; i <= x.size(); ++i) v.push_back(js(x[i])); return J("seq", ",\"v\":" + arr(v)); }); }
  else if (s == "M") { std::map<int, T> d, z; for (int i = 0; i < n[0]; ++i) { T x; gen(x, r); d[i * 7 - 9] = x; } z[5] = T(); cont<std::map<int, T> >(d, z, [](const std::map<int, T>& x) { return js(x); }); }
  else if (s == "R") { std::pair<int, T> d, z; gen(d, r); cont<std::pair<int, T> >(d, z, [](const std::pair<int, T>& x) { return js(x); }); }
  else if (s == "N2") { multi2d<T> d(n[1], n[0]); for (int a = 0; a < n[1]; ++a) for (int b = 0; b < n[0]; ++b) gen(d[a][b], r);
    if (W->wr) { for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) write(*o.w, d[j][i]); } else { for (int a = 0; a < n[1]; ++a) for (int b = 0; b < n[0]; ++b) d[a][b] = T(); read(*o.r, d, n[1], n[0]); }
    vector<string> v; for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) v.push_back(js(d[j][i])); done(J("raw", ",\"v\":" + arr(v))); }
  else return false;
  return true;
}
template<class T> void counted(int n) { // an array of which only the first n elements go out
  multi1d<T> d(n + 2); gen(d, W->r); if (!W->wr) for (int i = 0; i < n; ++i) d[i] = T(); T tail = d[n + 1];
  if (W->wr) write(*o.w, d, n); else read(*o.r, d, n);
  vector<string> v; for (int i = 0; i < n; ++i) v.push_back(js(d[i])); done(J("raw", ",\"v\":" + arr(v))); if (js(d[n + 1]) != js(tail)) W->kept = false; }
template<class U> void words(int n, bool primary) {
  vector<U> d(n + 1); for (auto& x : d) gen(x, W->r); if (!W->wr) for (int i = 0; i < n; ++i) d[i] = 3; U tail = d[n]; vector<U> b(d);
  if (W->wr) { if (primary) o.w->writeArrayPrimaryNode((const char*)&d[0], sizeof(U), n); else o.w->writeArray((const char*)&d[0], sizeof(U), n); if (d != b) W->kept = false; }
  else if (primary) { o.r->readArrayPrimaryNode((char*)&d[0], sizeof(U), n); if (n) QDPInternal::broadcast((void*)&d[0], n * sizeof(U)); }
  else o.r->readArray((char*)&d[0], sizeof(U), n);
  if (d[n] != tail) W->kept = false; d.resize(n); done(seq("raw", d));
}
template<class X> void qscalar() { X x; gen(x, W->r); if (!W->wr) { Rng z(5); gen(x, z); } viaFree(x); done(js(x)); }
template<class X> void qarray(int n) { multi1d<X> d(n), z(1); gen(d, W->r); cont<multi1d<X> >(d, z, [](const multi1d<X>& x) { return js(x); }); }
static void item(const string& s, const string& t, const vector<int>& n) {
  Rng& r = W->r; int how = W->how;
  if (s == "P") {
#define T(N, C) if (t == N) prim<C>(how);
    T("char", char) T("short", short) T("ushort", unsigned short) T("int", int) T("uint", unsigned) T("long", long) T("ulong", unsigned long) T("llong", long long) T("float", float) T("double", double) T("bool", bool) T("cf", cf) T("cd", cd)
#undef T
  } else if (s == "desc") { string x; gens(x, n[0], r, false); if (W->wr) { if (how == 1) o.w->writeDesc(x); else writeDesc(*o.w, x); } else { x = "junk"; if (how == 1) o.r->readDesc(x); else readDesc(*o.r, x); } done(J("desc", ",\"b\":" + bytesj(x))); }
  else if (s == "line") { string x; gens(x, n[0], r, true); if (W->wr) { if (how == 1) o.w->write(x); else if (how == 2) *o.w << x; else if (r.next() & 1) write(*o.w, x); else write(*o.w, x.c_str()); } else { x = "junk"; size_t mx = n[0] + 1 + r.next() % 3 * 40; if (how == 1) o.r->read(x, mx); else read(*o.r, x, mx); } done(J("line", ",\"b\":" + bytesj(x))); }
  else if (s == "N1") {
#define T(N, C) if (t == N) counted<C>(n[0]);
    T("char", char) T("short", short) T("ushort", unsigned short) T("int", int) T("uint", unsigned) T("long", long) T("ulong", unsigned long) T("llong", long long) T("float", float) T("double", double) T("bool", bool) T("cf", cf) T("cd", cd)
#undef T
  } else if (s == "W" || s == "WP") { bool p = s == "WP"; if (n[0] == 1) words<signed char>(n[1], p); else if (n[0] == 2) words<unsigned short>(n[1], p); else if (n[0] == 4) words<unsigned>(n[1], p); else words<unsigned long>(n[1], p); }
  else if (s == "AA") { multi1d<multi1d<int> > d(n[0]), z(2); for (int i = 0; i < n[0]; ++i) { d[i].resize((n[1] + i) % 4); gen(d[i], r); } cont<multi1d<multi1d<int> > >(d, z, [](const multi1d<multi1d<int> >& x) { return js(x); }); }
  else if (s == "VP") { typedef std::vector<std::pair<short, double> > C; C d(n[0]), z(1); for (auto& x : d) gen(x, r); cont<C>(d, z, [](const C& x) { return js(x); }); }
  else if (s == "MA") { typedef std::map<int, multi1d<float> > C; C d, z; for (int i = 0; i < n[0]; ++i) { multi1d<float> a((n[1] + i) % 3); gen(a, r); d[i * i - 3] = a; } cont<C>(d, z, [](const C& x) { return js(x); }); }
  else if (s == "LV") { typedef std::list<std::vector<short> > C; C d, z; for (int i = 0; i < n[0]; ++i) { std::vector<short> a(i); for (auto& y : a) gen(y, r); d.push_back(a); } cont<C>(d, z, [](const C& x) { return js(x); }); }
  else if (s == "AR") { typedef multi1d<std::pair<int, float> > C; C d(n[0]), z(1); gen(d, r); cont<C>(d, z, [](const C& x) { return js(x); }); }
  else if (s == "MP") { typedef std::map<std::pair<int, int>, char> C; C d, z; for (int i = 0; i < n[0]; ++i) { char c; gen(c, r); d[std::make_pair(i % 2, i)] = c; } cont<C>(d, z, [](const C& x) { return js(x); }); }
  else if (s == "Q") {
#define T(N) if (t == #N) qscalar<N>();
    T(Real) T(Complex) T(ColorVector) T(ColorMatrix) T(Fermion) T(Integer) T(RealD) T(Boolean) T(ComplexD) T(SpinMatrix) T(Seed)
#undef T
  } else if (s == "QA") { if (t == "Real") qarray<Real>(n[0]); else qarray<Complex>(n[0]); }
  else if (s == "QA2") { multi2d<Real> d(n[0], n[1]), z(1, 1); for (int a = 0; a < n[0]; ++a) for (int b = 0; b < n[1]; ++b) gen(d[a][b], r); cont<multi2d<Real> >(d, z, Elem<Real>::j2); }
  else if (s == "A1" && t != "int" && t != "double" && t != "float" && t != "short" && t != "cf" && t != "char") {
#define T(N, C) if (t == N) { multi1d<C> d(n[0]), z(3); gen(d, r); cont<multi1d<C> >(d, z, [](const multi1d<C>& x) { return js(x); }); }
    T("ushort", unsigned short) T("uint", unsigned) T("long", long) T("ulong", unsigned long) T("llong", long long) T("bool", bool) T("cd", cd)
#undef T
  } else {
#define T(N, C) if (t == N) container<C>(s, n);
    T("int", int) T("double", double) T("float", float) T("short", short) T("cf", cf) T("char", char)
  }
}
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L(Nd); for (int m = 0; m < Nd; ++m) L[m] = 4; Layout::setLattSize(L); Layout::create();
  fname = vt::arg(argc, argv, "file", "stream.bin"); { if (Layout::primaryNode()) std::ofstream f(fname.c_str()); }
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  string line; start.assign(1, 0); fstart = start;
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; ss >> op;
    if (op == "open") {
      string k; int tr, how, qq; ss >> k >> tr >> how >> qq; string in = k[0] == 'B' ? content : ""; start = fstart; if (k == "FW" || (k == "FRW" && tr)) { start.assign(1, 0); fstart = start; }
      o.zero(); o.kind = k;
      std::ios_base::openmode md = std::ios_base::in | std::ios_base::out; if (tr) md |= std::ios_base::trunc;
      if (k == "FR") { if (how) o.fr = new BinaryFileReader(fname); else { o.fr = new BinaryFileReader; o.fr->open(fname); } }
      else if (k == "FW") { if (how) o.fw = new BinaryFileWriter(fname); else { o.fw = new BinaryFileWriter; o.fw->open(fname); } }
      else if (k == "FRW") { if (how) o.frw = tr ? new BinaryFileReaderWriter(fname, md) : new BinaryFileReaderWriter(fname); else { o.frw = new BinaryFileReaderWriter; o.frw->open(fname, md); } }
      // the objects are placed in memory that was used before, as they would be in a long-running program
      else { void* m = malloc(2048); memset(m, 0x5a, 2048); string pin = Layout::primaryNode() ? in : string("elsewhere");
        if (k == "BR") { m = ::operator new(sizeof(BinaryBufferReader)); memset(m, 0x5a, sizeof(BinaryBufferReader)); if (how) o.br = new (m) BinaryBufferReader(pin); else { o.br = new (m) BinaryBufferReader; o.br->open(pin); } }
        if (k == "BW") { m = ::operator new(sizeof(BinaryBufferWriter)); memset(m, 0x5a, sizeof(BinaryBufferWriter)); if (how) o.bw = new (m) BinaryBufferWriter(pin); else { o.bw = new (m) BinaryBufferWriter; o.bw->open(pin); } }
        if (k == "BRW") { m = ::operator new(sizeof(BinaryBufferReaderWriter)); memset(m, 0x5a, sizeof(BinaryBufferReaderWriter)); if (how) o.brw = new (m) BinaryBufferReaderWriter(pin); else { o.brw = new (m) BinaryBufferReaderWriter; o.brw->open(pin); } } }
      o.r = o.fr ? (BinaryReader*)o.fr : o.frw ? (BinaryReader*)o.frw : o.br ? (BinaryReader*)o.br : (BinaryReader*)o.brw; o.w = o.fw ? (BinaryWriter*)o.fw : o.frw ? (BinaryWriter*)o.frw : o.bw ? (BinaryWriter*)o.bw : (BinaryWriter*)o.brw;
      vt::Ev e("open"); e.s("kind", k).i("trunc", tr).raw("b", bytesj(in)); q(e, qq);
    } else if (op == "reopen") { int qq; ss >> qq; if (o.br) o.br->open(content); else if (o.bw) o.bw->open(content); else o.brw->open(content); start = fstart; vt::Ev e("reopen"); e.raw("b", bytesj(content)); q(e, qq); }
    else if (op == "w" || op == "r") {
      int at, seed, how, qq; string s, t; vector<int> n; ss >> at >> seed >> how >> qq >> s >> t; int x; while (ss >> x) n.push_back(x);
      vt::Ev e(op == "w" ? "write" : "read"); Way way = {op == "w", how, Rng(seed * 7919ULL + vt::seed()), &e, true}; W = &way;
      item(s, t, n); e.b("kept", way.kept);
      if (op == "w" && at == (int)start.size()) { // the writer's position after the item (an in-memory reader-writer reports its reading position)
        long p; if (o.brw) { string c = o.brw->str(); p = c.size(); } else p = o.pos(); start.push_back(p); }
      q(e, qq);
    } else if (op == "seek") {
      string how; int k, qq; ss >> how >> k >> qq; long p = start[k - 1], off = p;
      if (how == "abs") o.abs(p); else if (how == "beg") o.beg(p); else if (how == "rel") { off = p - o.pos(); o.rel(off); } else if (how == "end") { off = start.back() - p; o.end(off); } else o.rewind();
      vt::Ev e("seek"); e.s("how", how).i("off", off); q(e, qq);
    } else if (op == "raw") {
      int k, n, qq; string w; ss >> k >> w >> n >> qq; long avail = start.back() - start[k - 1]; int sz = w == "c" ? 1 : w == "s" || w == "le2" ? 2 : w == "i" || w == "le4" ? 4 : 8;
      o.beg(start[k - 1]); { vt::Ev e("seek"); e.s("how", "beg").i("off", start[k - 1]).raw("q", "[]"); }
      n = std::min<long>(n, avail / sz);
      if (w[0] == 'l' && n > 0) { // the primary-node variant leaves the other nodes alone
        unsigned char b[80]; memset(b, 0, sizeof b); if (n & 1) o.r->readArrayLittleEndian((char*)b, sz, n); else { o.r->readArrayPrimaryNodeLittleEndian((char*)b, sz, n); QDPInternal::broadcast((void*)b, sz * n); }
        vector<vector<int> > v; for (int i = 0; i < n; ++i) { unsigned long long u = 0; if (sz == 2) { unsigned short y; memcpy(&y, b + 2 * i, 2); u = y; } else if (sz == 4) { unsigned y; memcpy(&y, b + 4 * i, 4); u = y; } else memcpy(&u, b + 8 * i, 8); vector<int> z; for (int m = sz - 1; m >= 0; --m) z.push_back((u >> (8 * m)) & 255); v.push_back(z); }
        vt::Ev e("readle"); e.vv("v", v); q(e, qq);
      } else for (int i = 0; i < n; ++i) { vt::Ev e("read"); string j; if (sz == 1) { char c; read(*o.r, c); j = js(c); } else if (sz == 2) { short c; *o.r >> c; j = js(c); } else { int c; o.r->read(c); j = js(c); } e.raw("v", j).b("kept", true); q(e, qq); }
      o.beg(start[k - 1]); { vt::Ev e("seek"); e.s("how", "beg").i("off", start[k - 1]); q(e, qq); }
    } else if (op == "reset") { o.reset(); vt::Ev e("reset"); q(e, 1); }
    else if (op == "query") { vt::Ev e("query"); q(e, 1); }
    else if (op == "flush") { if (o.fw) o.fw->flush(); else if (o.frw) o.frw->flush(); string c = content; vt::Ev e("flush"); e.raw("b", diskj()); content = c; }
    else if (op == "str") { string s = o.str(), p = o.prim(); vt::Ev e("str"); e.raw("b", bytesj(s)).lraw("prim", bytesj(p)); }
    else if (op == "close" || op == "eofclose") {
      if (op == "eofclose") { o.end(0); vector<char> big(16); o.r->readArray(&big[0], 1, 3); vt::Ev("eof").i("fail", o.fail()); }
      int op_ = 0; bool f = o.kind[0] == 'F';
      if (f && (start.size() & 1)) { if (o.fr) o.fr->close(); else if (o.fw) o.fw->close(); else o.frw->close(); op_ = o.is_open(); }
      if (o.kind == "FW" || o.kind == "FRW") fstart = start;
      o.del(); vt::Ev e("close"); e.i("open", op_).raw("b", diskj());
    } else if (op == "eofclear") {
      o.end(0); { vector<char> big(16); o.r->readArray(&big[0], 1, 3); vt::Ev("eof").i("fail", o.fail()); }
      if (o.br) o.br->clear(); else o.brw->clear(); o.rewind(); vt::Ev e("clear"); q(e, 1);
    } else if (op == "bf") {
      unsigned seed; ss >> seed; Rng r(seed); size_t sz[3] = {2, 4, 8}, s = sz[r.next() % 3]; int n = r.next() % 7; vector<unsigned char> d(s * n + 1), b, back(s * n + 1); for (auto& x : d) x = r.next(); b = d;
      vector<vector<int> > v, w; string bytes; size_t n1 = 0, n2 = 0;
      auto val = [&](const vector<unsigned char>& y) { vector<vector<int> > o; for (int i = 0; i < n; ++i) { unsigned long long u = 0; if (s == 2) { unsigned short z; memcpy(&z, &y[2 * i], 2); u = z; } else if (s == 4) { unsigned z; memcpy(&z, &y[4 * i], 4); u = z; } else memcpy(&u, &y[8 * i], 8); vector<int> q; for (int m = s - 1; m >= 0; --m) q.push_back((u >> (8 * m)) & 255); o.push_back(q); } return o; };
      char nm[400]; snprintf(nm, sizeof nm, "%s.bf%d", fname.c_str(), vt::myrank());
      FILE* f = fopen(nm, "wb"); n1 = QDPUtil::bfwrite(&d[0], s, n, f); fclose(f); bool kept = d == b; v = val(b);
      { std::ifstream g(nm, std::ios::binary); std::stringstream t; t << g.rdbuf(); bytes = t.str(); }
      f = fopen(nm, "rb"); n2 = QDPUtil::bfread(&back[0], s, n, f); fclose(f); unlink(nm);
      { vt::Ev e("bf"); e.vv("v", v).raw("b", bytesj(bytes)).vv("back", val(back)).b("kept", kept).v("n", vector<int>{(int)n1, (int)n2}); }
      size_t sw[5] = {1, 2, 4, 8, 16}; size_t z = sw[r.next() % 5]; int m = r.next() % 5; vector<unsigned char> a(z * m + 1); for (auto& x : a) x = r.next(); vector<vector<int> > in, out;
      for (int i = 0; i < m; ++i) in.push_back(vector<int>(a.begin() + i * z, a.begin() + (i + 1) * z)); QDPUtil::byte_swap(&a[0], z, m); for (int i = 0; i < m; ++i) out.push_back(vector<int>(a.begin() + i * z, a.begin() + (i + 1) * z));
      vt::Ev("swap").vv("v", in).vv("b", out);
      int len = r.next() % 40; string t; for (int i = 0; i < len; ++i) t += (char)r.next(); unsigned c = QDPUtil::crc32(0, t.data(), len), x = 0; int cut = len ? r.next() % len : 0; x = QDPUtil::crc32(0, (const unsigned char*)t.data(), cut); x = QDPUtil::crc32(x, (const unsigned char*)t.data() + cut, len - cut);
      vt::Ev("crc").raw("b", bytesj(t)).v("whole", vector<int>{int(c >> 16), int(c & 65535)}).v("split", vector<int>{int(x >> 16), int(x & 65535)});
    }
  }
  o.del(); QDP_finalize();
  return 0;
}
