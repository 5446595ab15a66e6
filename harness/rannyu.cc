// Replays histories of the RANNYU generator.  --script
#include "vtrace.h"
#include "qdp_rannyu.h"
#include <fstream>
using namespace QDP;
static void put(vector<long long>& o, double r) {
  if (!(r >= 0.0 && r < 1.0)) { o.push_back(-1); o.push_back(-1); return; }
  double h = std::floor(r * 16777216.0), q = (r * 16777216.0 - h) * 16777216.0;
  o.push_back((long long)h); o.push_back(q == std::floor(q) ? (long long)q : -2);
}
static vector<int> w4(std::stringstream& ss) { vector<int> w(4); for (int& x : w) ss >> x; return w; }
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L(Nd); for (int m = 0; m < Nd; ++m) L[m] = 4;
  Layout::setLattSize(L); Layout::create();
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  multi1d<int> slot[4]; RANNYU::RNGState_t st[3];
  string line;
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; int k, n; ss >> op;
    if (op == "draw") { ss >> n; vector<long long> v; for (int i = 0; i < n; ++i) put(v, RANNYU::random()); vt::Ev("draw").v("v", v); }
    else if (op == "set") { vector<int> w = w4(ss); RANNYU::setrn(vt::tom(w)); vt::Ev("set").v("w", w); }
    else if (op == "save") { ss >> k; slot[k] = RANNYU::savern(); vt::Ev("save").i("k", k).v("state", vt::tov(slot[k])); }
    else if (op == "restore") { ss >> k; RANNYU::setrn(slot[k]); vt::Ev("restore").i("k", k); }
    else if (op == "hold") { ss >> k; vector<int> w = w4(ss); st[k].seed = vt::tom(w); vt::Ev("hold").i("k", k).v("w", w); }
    else if (op == "hdraw") { ss >> k >> n; vector<long long> v; for (int i = 0; i < n; ++i) { RANNYU::random(st[k]); put(v, st[k].ran); } vt::Ev("hdraw").i("k", k).v("v", v).v("state", vt::tov(st[k].seed)); }
    else if (op == "copy") { int j; ss >> k >> j; st[j] = st[k]; vt::Ev("copy").i("k", k).i("to", j); }
    else if (op == "qdp") { Real r; random(r); Seed s; RNG::savern(s); vt::dvec d = vt::flatv(s); vt::Ev("qdp").v("state", vector<int>(d.begin(), d.end())); }
  }
  QDP_finalize();
  return 0;
}
