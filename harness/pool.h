// the subsets statements may be restricted to, with the colour functions as the harness defines them
#ifndef POOL_H
#define POOL_H
#include "vtrace.h"
#include <functional>
using namespace QDP;
struct PoolFun : public SetFunc {
  int id; explicit PoolFun(int i) : id(i) {}
  int operator()(const multi1d<int>& x) const {
  long g = vt::lexi(x, Layout::lattSize());
  switch (id) {
    case 0: return x[Nd-1] % 4;                       // time slices
    case 1: return vt::hash64(g * 13 + 5) % 3;        // irregular
    case 2: return g == 3 ? 1 : 0;                    // a single site
    case 3: return x[0] & 1;
    case 4: return 1;                                 // colour 0 and 2 empty
    case 5: return g < Layout::vol() / 2 ? 0 : 1;
    case 6: return x[Nd-1] == 0 ? 0 : (x[0] + x[1]) & 1 ? 1 : 2;
  }
  return 0;
}
  int numSubsets() const { switch (id) { case 0: return 4; case 1: return 3; case 2: return 2; case 3: return 2; case 4: return 3; case 5: return 2; case 6: return 3; } return 1; }
};
struct Pool {
  Set* sets[8]; vector<const Subset*> sub; vector<vector<int> > mask;
  static multi1d<int> coord(long g) { const multi1d<int>& L = Layout::lattSize(); multi1d<int> x(Nd); for (int m = 0; m < Nd; ++m) { x[m] = g % L[m]; g /= L[m]; } return x; }
  static int par(const multi1d<int>& x, int n) { int s = 0; for (int m = 0; m < n; ++m) s += x[m]; return s & 1; }
  void add(const Subset* s, std::function<bool(const multi1d<int>&)> f) { sub.push_back(s); vector<int> o; for (int g = 0; g < Layout::vol(); ++g) o.push_back(f(coord(g)) ? 1 : 0); mask.push_back(o); }
  void addp(int id, int c) { PoolFun f(id); add(&(*sets[id])[c], [=](const multi1d<int>& x) { return f(x) == c; }); }
  void make() {
    for (int i = 0; i < 7; ++i) sets[i] = new Set(PoolFun(i));
    add(0, [](const multi1d<int>&) { return true; });
    add(&all, [](const multi1d<int>&) { return true; });
    add(&even, [](const multi1d<int>& x) { return par(x, Nd) == 0; });
    add(&odd, [](const multi1d<int>& x) { return par(x, Nd) == 1; });
    add(&rb3[1], [](const multi1d<int>& x) { return par(x, 3) == 1; });
    add(&mcb[5], [](const multi1d<int>& x) { int c = 0, h = 0; for (int m = Nd - 1; m >= 0; --m) { c = 2 * c + (x[m] & 1); h += x[m] >> 1; } return c + ((h & 1) << Nd) == 5; });
    addp(0, 1); addp(1, 0); addp(1, 2); addp(2, 1); addp(3, 1); addp(4, 0); addp(5, 1); addp(6, 2);
  }
};
#endif
