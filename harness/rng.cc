// Replays histories of random draws and seed operations.  --dims --script
#include "pool.h"
#include <fstream>
static vector<int> words(const Seed& s) { vt::dvec v = vt::flatv(s); return vector<int>(v.begin(), v.end()); }
static vector<int> state() { Seed s; RNG::savern(s); return words(s); }
static long long u30(double v) { return v == -7.0 ? -7 : (v >= 0.0 && v < 1.0) ? (long long)std::floor(v * 1073741824.0) : -1; }
static vector<long long> u30v(const vt::dvec& x) { vector<long long> o; for (double v : x) o.push_back(u30(v)); return o; }
template<class T> void mark(OLattice<T>& f) { for (int i = 0; i < Layout::sitesOnNode(); ++i) { vt::dvec v(sizeof(T) / sizeof(float), -7.0); vt::Src s(v); vt::unflat(f.elem(i), s); } }
template<class X> void lat(Pool& p, int sb, int how) {
  X f; mark(f);
  if (sb == 0 && !how) random(f); else random(f, sb ? *p.sub[sb] : all);
  vector<vt::dvec> v = vt::flatl(f); vector<vector<long long> > o; size_t n = vt::flatv(OScalar<typename std::remove_reference<decltype(f.elem(0))>::type>()).size();
  for (auto& x : v) o.push_back(u30v(x));
  vt::Ev("rand").i("sub", sb + 1).i("n", n).v("state", state()).lvv("v", o);
}
template<class X> void sca() { X f; random(f); vt::dvec v = vt::flatv(f); vt::Ev("scal").i("n", v.size()).v("v", u30v(v)).v("state", state()); }
template<class X> void gau(Pool& p, int sb, int how) {
  Seed pre; RNG::savern(pre); X r1, r2, f; const Subset& s = sb ? *p.sub[sb] : all;
  random(r1, s); random(r2, s); RNG::setrn(pre);
  mark(f);
  if (sb == 0 && !how) gaussian(f); else gaussian(f, s);
  vector<vt::dvec> a = vt::flatl(r1), b = vt::flatl(r2), c = vt::flatl(f); vector<int> ok; size_t n = c.empty() ? 0 : c[0].size();
  if (!n) n = vt::flatv(OScalar<typename std::remove_reference<decltype(f.elem(0))>::type>()).size();
  for (size_t i = 0; i < c.size(); ++i) {
    bool good = true, keep = true;
    for (size_t k = 0; k < n; k += 2) {
      double R = sqrt(-2.0 * log(a[i][k])), th = 6.283185307179586 * b[i][k];
      if (!(fabs(c[i][k] - R * cos(th)) < 2e-4) || !(fabs(c[i][k + 1] - R * sin(th)) < 2e-4)) good = false;
      if (c[i][k] != -7.0 || c[i][k + 1] != -7.0) keep = false;
    }
    ok.push_back(keep ? 2 : good ? 1 : 0);
  }
  vt::Ev("gauss").i("sub", sb + 1).i("n", n).v("state", state()).lv("ok", ok);
}
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  vector<string> dims; { std::stringstream ss(vt::arg(argc, argv, "dims", "4,4,2,4")); string t; while (std::getline(ss, t, '/')) dims.push_back(t); }
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  Pool* p = 0; Seed slot[4]; size_t nd = 0;
  string line;
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; ss >> op;
    if (op == "lattice") {
      multi1d<int> L = vt::parsedims(dims[nd++ % dims.size()].c_str()); Layout::setLattSize(L); Layout::create(); p = new Pool; p->make();
      vt::Ev("lattice").v("dims", vt::tov(L)).vv("subs", p->mask).v("state", state()).lvv("sites", vt::mysites());
    } else if (op == "setrn") {
      vector<int> w(4); for (int& x : w) ss >> x; vt::dvec d(w.begin(), w.end()); Seed s; vt::Src q(d); vt::unflat(s, q); RNG::setrn(s);
      vt::Ev("setrn").v("w", w).v("state", state());
    } else if (op == "save") { int k; ss >> k; RNG::savern(slot[k]); vt::Ev("save").i("k", k).v("state", words(slot[k])); }
    else if (op == "restore") { int k; ss >> k; RNG::setrn(slot[k]); vt::Ev("restore").i("k", k).v("state", state()); }
    else if (op == "rand" || op == "gauss") {
      string t; int s, h; ss >> t >> s >> h; bool g = op == "gauss";
#define D(N, X) else if (!g && t == N) lat<X>(*p, s, h);
      if (g && t == "C") gau<LatticeComplex>(*p, s, h); else if (g && t == "V") gau<LatticeColorVector>(*p, s, h); else if (g && t == "M") gau<LatticeColorMatrix>(*p, s, h);
      D("R", LatticeReal) D("C", LatticeComplex) D("V", LatticeColorVector) D("M", LatticeColorMatrix) D("F", LatticeFermion) D("H", LatticeHalfFermion) D("P", LatticePropagator)
      D("RD", LatticeRealD) D("CD", LatticeComplexD) D("MF", LatticeColorMatrixF)
    } else if (op == "scal") {
      string t; ss >> t;
      if (t == "r") sca<Real>(); else if (t == "c") sca<Complex>(); else if (t == "m") sca<ColorMatrix>(); else if (t == "f") sca<Fermion>(); else if (t == "rd") sca<RealD>();
    }
  }
  vt::Ev("state").v("state", state());
  QDP_finalize();
  return 0;
}
