// C18: collective operations one after the other; the nodes' messages are logged by the message layer
#include "pool.h"
#include "json.h"
#include "qdp_disk_map_slice.h"
#include <cstdio>
#ifdef ARCH_PARSCALAR
extern "C" void mqmp_mark(void);
#else
static void mqmp_mark() {}
#endif
static multi1d<int> at(const J& o, int i) { multi1d<int> x(Nd); for (int m = 0; m < Nd; ++m) x[m] = o[i].i() ? (o[i].n >> (3 * m)) % Layout::lattSize()[m] : 0; return x; }
// translations that take the sites of a node to one other node at most
struct Diag : public MapFunc { int a, b; Diag(int p, int q) : a(p), b(q) {} multi1d<int> operator()(const multi1d<int>& x, int s) const { const multi1d<int>& L = Layout::lattSize(); const multi1d<int>& S = Layout::subgridLattSize(); multi1d<int> y = x;
    if (a & 1) { int m = b % Nd; y[m] = (x[m] + s * ((a / 2) % (S[m] + 1)) + L[m]) % L[m]; } else { y[0] = (x[0] + (a / 2) % 3 * s * S[0] + 2 * L[0] * 2) % L[0]; y[Nd-1] = (x[Nd-1] + b % 3 * s * S[Nd-1] + 4 * L[Nd-1]) % L[Nd-1]; }
    return y; } };
template<class T> static string txt(const T& x) { return vt::Ev::dv(vt::flatv(x)); }
static string file;
template<class F> static void lat(const string& k, F& f, F& g, const J& o, Pool& P) {
  if (k == "shift") { g = shift(f, o[2].i() & 1 ? FORWARD : BACKWARD, o[3].i() % Nd); f += g; }
  else if (k == "shiftsub") { g[*P.sub[1 + o[3].i() % 13]] = shift(f, o[2].i() & 1 ? FORWARD : BACKWARD, o[3].i() % Nd); }
  else if (k == "nest") { g = shift(shift(f, FORWARD, o[2].i() % Nd) + f, BACKWARD, o[3].i() % Nd); }
  else if (k == "map") { Map m; m.make(Diag(o[2].i(), o[3].i())); g = m(f); f = g; }
  else if (k == "peek") { vt::Ev("val").raw("v", txt(peekSite(f, at(o, 2)))); }
  else if (k == "poke") { pokeSite(f, peekSite(g, at(o, 2)), at(o, 3)); }
  else if (k == "norm") { vt::Ev("val").raw("v", txt(norm2(f))); vt::Ev("val").raw("v", txt(norm2(f, *P.sub[1 + o[2].i() % 13]))); }
  else if (k == "file") { { BinaryFileWriter w(file); write(w, f); w.close(); } { BinaryFileReader r(file); read(r, g); r.close(); } }
  else if (k == "site") { { BinaryFileWriter w(file); write(w, f, at(o, 2)); write(w, f, at(o, 3)); w.close(); } { BinaryFileReader r(file); read(r, g, at(o, 3)); read(r, g, at(o, 2)); r.close(); } }
  else if (k == "time") { int L = Layout::lattSize()[Nd-1], t = o[2].i() % L; { BinaryFileWriter w(file); TimeSliceIO<F> q(f, 0); q.setTimeSlice(t); write(w, q); w.close(); } { BinaryFileReader r(file); TimeSliceIO<F> q(g, t); read(r, q); r.close(); } }
  else if (k == "buf") { BinaryBufferWriter w; write(w, f); BinaryBufferReader r(w.str()); read(r, g); }
}
int main(int argc, char** argv) {
  Script s(vt::arg(argc, argv, "script", "")); file = vt::arg(argc, argv, "file", "");
  QDP_initialize(&argc, &argv); multi1d<int> L = vt::parsedims(vt::arg(argc, argv, "dims", "").c_str()); Layout::setLattSize(L); Layout::create(); Pool P; P.make();
  LatticeInteger i0 = Layout::latticeCoordinate(0), i1 = Layout::latticeCoordinate(1); LatticeReal r0, r1; random(r0); random(r1); LatticeFermion f0, f1; random(f0); random(f1); LatticeColorMatrix c0, c1; random(c0); random(c1);
  LatticeDouble d0; d0 = r0; LatticeDouble d1 = d0; vt::open();
  for (auto& x : s.ops) { const J& o = x.first; const string k = o[0].s; int ty = o[1].i(), a = o[2].i(), b = o[3].i(); mqmp_mark();
    if (k == "sum") { vt::Ev("val").raw("v", txt(sum(i0))); vt::Ev("val").raw("v", txt(sum(r0))); vt::Ev("val").raw("v", txt(sum(c0, *P.sub[1 + a % 13]))); vt::Ev("val").raw("v", txt(sum(d0))); }
    else if (k == "multi") { auto m = sumMulti(r0, *P.sets[a % 7]); for (int i = 0; i < m.size(); ++i) vt::Ev("val").raw("v", txt(m[i])); }
    else if (k == "inner") { vt::Ev("val").raw("v", txt(innerProduct(f0, f1))); vt::Ev("val").raw("v", txt(innerProductReal(c0, c1, *P.sub[1 + a % 13]))); }
    else if (k == "max") { vt::Ev("val").raw("v", txt(globalMax(r0))); vt::Ev("val").raw("v", txt(globalMin(d0))); }
    else if (k == "rnd") { Real q; random(q); random(r0, *P.sub[1 + a % 13]); gaussian(r1); vt::Ev("val").raw("v", txt(q)); Seed z; RNG::savern(z); vt::Ev("val").raw("v", txt(z)); }
    else if (k == "word") { string w; if (Layout::primaryNode()) w = string(a * 37 + b, 'a' + b); QDPInternal::broadcast_str(w); vt::Ev("val").s("v", w); }
    else if (k == "bcast") { double q = Layout::primaryNode() ? a + b / 8. : -1; QDPInternal::broadcast(q); int n = Layout::primaryNode() ? a : -1; QDPInternal::broadcast(n); vt::Ev("val").raw("v", std::to_string((int)(8 * q)) ).i("n", n); }
    else if (k == "text") { { TextFileWriter w(file); w << a << "\n" << Real(b) << "\n"; w.close(); } int n = -1; Real q; { TextFileReader r(file); r >> n >> q; r.close(); } vt::Ev("val").i("n", n).raw("v", txt(q)); }
    else if (k == "scalars") { { BinaryFileWriter w(file); write(w, a); write(w, string("text")); multi1d<Real> m(3); m = Real(b); write(w, m); w.close(); } int n; string q; multi1d<Real> m; { BinaryFileReader r(file); read(r, n); read(r, q, 10); read(r, m); vt::Ev("val").i("n", n).s("q", q).raw("m", txt(m[1])).raw("crc", std::to_string(r.getChecksum() % 1000000)); r.close(); } }
    else if (k == "route") { int from = a % Layout::numNodes(), to = b % Layout::numNodes();
#ifdef ARCH_PARSCALAR
      int w[4] = {0, 0, 0, 0}; if (Layout::nodeNumber() == from) for (int i = 0; i < 4; ++i) w[i] = a + i; QDPInternal::route(w, from, to, sizeof w); double q = Layout::nodeNumber() == to ? w[3] : 0; QDPInternal::globalSum(q); vt::Ev("val").i("v", (int)q).i("want", a + 3);
#endif
    }
    else switch (ty % 5) { case 0: lat(k, i0, i1, o, P); i0 = where(i0 > 1000000, LatticeInteger(i0 - 1000000), i0); break; case 1: lat(k, r0, r1, o, P); break; case 2: lat(k, f0, f1, o, P); break; case 3: lat(k, c0, c1, o, P); break; case 4: lat(k, d0, d1, o, P); break; }
    if (k[0] == 'n' || k[0] == 'p' || k == "shift" || k == "map") { r0 *= Real(0.25); f0 *= Real(0.25); c0 *= Real(0.25); d0 *= Double(0.25); } }
  mqmp_mark(); vt::Ev("val").raw("v", txt(sum(i0))); vt::Ev("val").raw("v", txt(norm2(f0))); mqmp_mark();
  fflush(0); QDP_finalize(); return 0; }
