// C20: one life of the library: start-up, lattices created, used and destroyed, shut-down
#include "qdp.h"
#include "vtrace.h"
#include "json.h"
#include <unistd.h>
#include <deque>
using namespace QDP;
// before the nodes part, the one process speaks for all of them
static bool parted = false;
static void say(const string& a) {
#ifdef ARCH_PARSCALAR
  parted = QMP_is_initialized();
  int n = getenv("MQMP_N") ? atoi(getenv("MQMP_N")) : 1, me = QMP_get_node_number();
#else
  int n = 1, me = 0;
#endif
  for (int r = 0; r < n; ++r) if (!parted || r == me) { FILE* f = fopen((string(getenv("VT_OUT")) + "." + std::to_string(r)).c_str(), "a"); if (!f) _exit(97); fprintf(f, "{\"a\":{%s},\"l\":{}}\n", a.c_str()); fclose(f); }
}
static vector<int> tov(const multi1d<int>& v) { vector<int> o; for (int i = 0; i < v.size(); ++i) o.push_back(v[i]); return o; }
// digests
typedef unsigned long long u64;
static void mix(u64& h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; }
template<class T> static void mixv(u64& h, const T& x) { vt::dvec v = vt::flatv(x); for (double d : v) { u64 u; memcpy(&u, &d, 8); mix(h, u); } }
static string hex(u64 h) { char b[32]; snprintf(b, sizeof b, "%016llx", h); return b; }
struct ByParity : public SetFunc { int operator()(const multi1d<int>& x) const { int s = 0; for (int m = 0; m < Nd; ++m) s += (m + 1) * x[m]; return s % 3; } int numSubsets() const { return 3; } };
static Set& userset() { static Set s; return s; }
struct ByTwo : public MapFunc { multi1d<int> operator()(const multi1d<int>& x, int sign) const { multi1d<int> y = x; const multi1d<int>& L = Layout::lattSize(); y[0] = (x[0] + 2 * sign + 2 * L[0]) % L[0]; y[1] = (x[1] + sign + L[1]) % L[1]; return y; } };
static void members(vector<u64>& h, const Subset& s, int tag) { const int* t = s.siteTable().slice(); for (int i = 0; i < s.numSiteTable(); ++i) mix(h.at(t[i]), 1000 + tag); }
static void setmembers(vector<u64>& h, const Set& s, int tag) { for (int i = 0; i < s.numSubsets(); ++i) members(h, s[i], 100 * tag + i); }
template<class T> static void fieldin(vector<u64>& h, const T& f) { for (size_t i = 0; i < h.size(); ++i) mixv(h[i], f.elem(i)); }
// everything the library holds about the lattice, independently of how it lies on the nodes
static string digest() {
  int n = Layout::sitesOnNode(); vector<u64> h(n, 1); u64 g = 7;
  { Seed s; RNG::savern(s); mixv(g, s); }
  LatticeInteger lex = Layout::latticeCoordinate(Nd - 1); for (int m = Nd - 2; m >= 0; --m) { lex *= Layout::lattSize()[m]; lex += Layout::latticeCoordinate(m); }
  fieldin(h, lex);
  setmembers(h, rb, 1); setmembers(h, mcb, 2); setmembers(h, rb3, 3); members(h, all, 500); members(h, even, 501); members(h, odd, 502);
  userset().make(ByParity()); setmembers(h, userset(), 6);
  for (int d = 0; d < Nd; ++d) { LatticeInteger a = shift(lex, FORWARD, d), b = shift(lex, BACKWARD, d); fieldin(h, a); fieldin(h, b); }
  { Map m; m.make(ByTwo()); LatticeInteger a = m(lex); fieldin(h, a); }
  { LatticeReal r; random(r); fieldin(h, r); LatticeColorVector v; gaussian(v); fieldin(h, v); Real x; random(x); mixv(g, x); LatticeReal q = zero; random(q, rb[1]); fieldin(h, q); }
  { multi1d<Integer> c = sumMulti(lex, rb); for (int i = 0; i < c.size(); ++i) mixv(g, c[i]); Integer t = sum(lex); mixv(g, t); }
  { Seed s; RNG::savern(s); mixv(g, s); s = 5; RNG::setrn(s); LatticeReal r; random(r); fieldin(h, r); }
  double lo = 0, hi = 0, cnt = n; for (u64 x : h) { lo += (double)(x & 0xffffffffULL); hi += (double)(x >> 32); }
#ifdef ARCH_PARSCALAR
  QMP_sum_double(&lo); QMP_sum_double(&hi); QMP_sum_double(&cnt);
#endif
  mix(g, (u64)lo); mix(g, (u64)hi); mix(g, (u64)cnt);
  return hex(g);
}
static string state(const string& op) { string a = "\"e\":\"done\",\"op\":" + op + ",\"on\":" + (QDP_isInitialized() ? "true" : "false"); return a; }
int main(int argc, char** argv) {
  Script s(vt::arg(argc, argv, "script", "")); vector<void*> none; LatticeFermion* held[8] = {0}; int salt = 0;
  for (auto& x : s.ops) { const J& o = x.first; const string k = o[0].s; string extra; say("\"e\":\"do\",\"op\":" + x.second);
    if (k == "init") { vector<string> w(1, "prog"); for (auto& g : o[1].a) for (auto& y : g.a) w.push_back(y.s.empty() ? std::to_string(y.n) : y.s);
      static std::deque<vector<char*> > keep; vector<char*> p; for (auto& y : w) p.push_back(strdup(y.c_str())); int c = p.size(); p.push_back(0); keep.push_back(p); char** v = keep.back().data(); QDP_initialize(&c, &v); }
    else if (k == "size") { multi1d<int> L(o[1].size()); for (int i = 0; i < L.size(); ++i) L[i] = o[1][i].i(); Layout::setLattSize(L); }
    else if (k == "create") { Layout::create(); extra = ",\"digest\":\"" + digest() + "\",\"latt\":" + vt::Ev::vec(tov(Layout::lattSize())) + ",\"vol\":" + std::to_string(Layout::vol()) + ",\"sites\":" + std::to_string(Layout::sitesOnNode())
        + ",\"nodes\":" + std::to_string(Layout::numNodes()) + ",\"grid\":" + vt::Ev::vec(tov(Layout::logicalSize())) + ",\"sub\":" + vt::Ev::vec(tov(Layout::subgridLattSize()))
        + ",\"iogrid\":" + (Layout::isIOGridDefined() ? vt::Ev::vec(tov(Layout::getIONodeGrid())) : "[]") + ",\"ionodes\":" + std::to_string(Layout::numIONodeGrid()); }
    else if (k == "destroy") Layout::destroy();
    else if (k == "fin") QDP_finalize();
    else if (k == "ask") {}
    else if (k == "suspend") QDP_suspend();
    else if (k == "resume") QDP_resume();
    else if (k == "hold") { int i = o[1].i(); delete held[i]; held[i] = new LatticeFermion; *held[i] = zero; if (Layout::sitesOnNode()) *held[i] *= Real(3); }
    else if (k == "drop") { int i = o[1].i(); delete held[i]; held[i] = 0; }
    else if (k == "use") { ++salt;
      switch (o[1].i()) {
        case 0: { LatticeReal r; random(r); break; }
        case 1: { LatticeFermion f; gaussian(f); f = shift(f, FORWARD, salt % Nd); break; }
        case 2: { Seed z; z = 17 + salt; RNG::setrn(z); break; }
        case 3: { userset().make(ByParity()); LatticeReal r = zero; r[userset()[1]] = Real(2); sumMulti(r, userset()); break; }
        case 4: { Real r; random(r); break; }
        case 5: { LatticeInteger i = Layout::latticeCoordinate(0); multi1d<int> c(Nd); c = 0; peekSite(i, c); pokeSite(i, Integer(7), c); sum(i); break; }
        case 6: { Map m; m.make(ByTwo()); LatticeInteger i = Layout::latticeCoordinate(0); LatticeInteger q = m(i); break; }
        case 7: { Seed z, y; RNG::savern(z); LatticeReal r; random(r); RNG::setrn(z); random(r, rb[0]); break; } } }
    else if (k == "abort") QDP_abort(o[1].i());
    else if (k == "error") { string m(o[1].i(), 'x'); QDP_error_exit("%s", m.c_str()); }
    else exit(96);
    say(state(x.second) + extra); }
  if (QDP_isInitialized()) { say("\"e\":\"do\",\"op\":[\"fin\"]"); QDP_finalize(); say(state("[\"fin\"]")); }
  say("\"e\":\"end\""); fflush(0); return 0; }
