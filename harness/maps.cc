#include "fields.h"
Map umap[6]; ArrayMap amap; BiDirectionalMap bmap; ArrayBiDirectionalMap abmap;
static multi1d<int> coord(long g) { const multi1d<int>& L = Layout::lattSize(); multi1d<int> x(Nd); for (int m = 0; m < Nd; ++m) { x[m] = g % L[m]; g /= L[m]; } return x; }
static multi1d<int> apply(int id, const multi1d<int>& x, int sgn) {
  const multi1d<int>& L = Layout::lattSize(); multi1d<int> y = x;
  switch (id) {
    case 0: y[0] = (x[0] + sgn + L[0]) % L[0]; y[1] = (x[1] + sgn + L[1]) % L[1]; break;             // diagonal
    case 1: y[Nd-1] = (x[Nd-1] + 2 * sgn + 2 * L[Nd-1]) % L[Nd-1]; break;                            // two steps
    case 2: for (int m = 0; m < Nd; ++m) y[m] = (L[m] - x[m]) % L[m]; break;                         // reflection
    case 3: for (int m = 0; m < Nd; ++m) y[m] = (x[m] + L[m] / 2) % L[m]; break;                     // antipode
    case 4: y = x; break;
    case 5: y[2] = (x[2] + sgn + L[2]) % L[2]; y[Nd-1] = (x[Nd-1] - sgn + L[Nd-1]) % L[Nd-1]; break; // anti-diagonal
  }
#ifdef ARCH_PARSCALAR
  // the sites of one node must all come from one node
  if (id == 2) y = x;
#endif
  return y;
}
struct UMap : public MapFunc { int id; explicit UMap(int i) : id(i) {} multi1d<int> operator()(const multi1d<int>& x, int sgn) const { return apply(id, x, sgn); } };
struct AMap : public ArrayMapFunc {
  int a, b; AMap(int p, int q) : a(p), b(q) {}
  multi1d<int> operator()(const multi1d<int>& x, int sgn, int dir) const { return apply(dir == 0 ? a : b, x, sgn); }
  int numArray() const { return 2; }
};
void makemaps(vector<vector<int> >& tables) {
  const multi1d<int>& L = Layout::lattSize();
  auto table = [&](int id, int sgn) { vector<int> t; for (int g = 0; g < Layout::vol(); ++g) t.push_back(vt::lexi(apply(id, coord(g), sgn), L) + 1); tables.push_back(t); };
  for (int i = 0; i < 6; ++i) { umap[i].make(UMap(i)); table(i, +1); }
  amap.make(AMap(5, 1)); table(5, +1); table(1, +1);
  bmap.make(UMap(0)); table(0, +1); table(0, -1);
  abmap.make(AMap(0, 1)); table(0, +1); table(0, -1); table(1, +1); table(1, -1);
}
