#include "fields.h"
#include <fstream>
struct OpEntry { string kind; void (*fn)(Ctx&); vector<string> types; };
static std::map<int, OpEntry>& ops() { static std::map<int, OpEntry> m; return m; }
Reg::Reg(int id, const char* kind, void (*fn)(Ctx&), const char* types) {
  OpEntry e; e.kind = kind; e.fn = fn; std::stringstream ss(types); string t; while (ss >> t) e.types.push_back(t); ops()[id] = e;
}
std::vector<Tracked>& tracked() { static std::vector<Tracked> t; return t; }
std::map<string, TypeInfo>& types() { static std::map<string, TypeInfo> t; return t; }
Set* poolset[8];

int PoolFun::operator()(const multi1d<int>& x) const {
  long g = vt::lexi(x, Layout::lattSize());
  switch (id) {
    case 0: return x[Nd-1] % 4;                       // time slices
    case 1: return vt::hash64(g * 13 + 5) % 3;        // irregular
    case 2: return g == 3 ? 1 : 0;                    // a single site
    case 3: return x[0] & 1;
    case 4: return 1;                                 // colour 0 and 2 empty
    case 5: return g < Layout::vol() / 2 ? 0 : 1;
    case 6: return x[Nd-1] == 0 ? 0 : (x[0] + x[1]) & 1 ? 1 : 2;
  }
  return 0;
}
int PoolFun::numSubsets() const { switch (id) { case 0: return 4; case 1: return 3; case 2: return 2; case 3: return 2; case 4: return 3; case 5: return 2; case 6: return 3; } return 1; }
static multi1d<int> coord(long g) { const multi1d<int>& L = Layout::lattSize(); multi1d<int> x(Nd); for (int m = 0; m < Nd; ++m) { x[m] = g % L[m]; g /= L[m]; } return x; }
static vector<int> maskof(std::function<bool(const multi1d<int>&)> f) { vector<int> o; for (int g = 0; g < Layout::vol(); ++g) o.push_back(f(coord(g)) ? 1 : 0); return o; }
vector<vector<int> > setmasks(int id) {
  PoolFun fn(id); vector<vector<int> > o;
  for (int c = 0; c < fn.numSubsets(); ++c) o.push_back(maskof([&](const multi1d<int>& x) { return fn(x) == c; }));
  return o;
}
vector<vector<int> > coordsof(const Subset& s) {
  vector<vector<int> > o; for (int j = 0; j < s.numSiteTable(); ++j) o.push_back(vt::tov(Layout::siteCoords(Layout::nodeNumber(), s.siteTable()[j]))); return o;
}
static int par(const multi1d<int>& x, int n) { int s = 0; for (int m = 0; m < n; ++m) s += x[m]; return s & 1; }


int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L = vt::parsedims(vt::arg(argc, argv, "dims", "4,4,2,4").c_str());
  Layout::setLattSize(L); Layout::create();
  for (int i = 0; i < 7; ++i) { poolset[i] = new Set(PoolFun(i)); }
  // the subsets statements may be restricted to; number 0 is "no restriction"
  vector<const Subset*> sub; vector<vector<int> > mask;
  auto add = [&](const Subset* s, std::function<bool(const multi1d<int>&)> f) { sub.push_back(s); mask.push_back(maskof(f)); };
  add(0, [](const multi1d<int>&) { return true; });
  add(&all, [](const multi1d<int>&) { return true; });
  add(&even, [](const multi1d<int>& x) { return par(x, Nd) == 0; });
  add(&odd, [](const multi1d<int>& x) { return par(x, Nd) == 1; });
  add(&rb3[1], [](const multi1d<int>& x) { return par(x, 3) == 1; });
  add(&mcb[5], [](const multi1d<int>& x) { int c = 0, h = 0; for (int m = Nd - 1; m >= 0; --m) { c = 2 * c + (x[m] & 1); h += x[m] >> 1; } return c + ((h & 1) << Nd) == 5; });
  auto addp = [&](int id, int c) { PoolFun* f = new PoolFun(id); add(&(*poolset[id])[c], [=](const multi1d<int>& x) { return (*f)(x) == c; }); };
  addp(0, 1); addp(1, 0); addp(1, 2); addp(2, 1); addp(3, 1); addp(4, 0); addp(5, 1); addp(6, 2);
  vector<vector<int> > maps;
#ifdef HAVE_MAPS
  makemaps(maps);
#endif
  vt::Ev("lattice").v("dims", vt::tov(L)).vv("subs", mask).vv("maps", maps).lvv("sites", vt::mysites());
  registry();
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  string line; unsigned long long nfill = 0;
  auto save = [&]() { for (auto& t : tracked()) t.saved = t.bytes(); };
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string w; ss >> w;
    if (w == "fill") {
      string r; int b; ss >> r >> b; ++nfill;
      size_t k = r.find_first_of("0123456789");
      types()[r.substr(0, k)].fill(atoi(r.substr(k).c_str()), b, vt::seed() * 1000003ULL + nfill * 104729ULL);
    } else if (w == "op") {
      int n, sb; ss >> n >> sb; OpEntry& o = ops()[n];
      Ctx c; c.s = sub[sb]; string regs = "{", x, dreg; int k = 0; c.setid = n % 7; c.set = poolset[c.setid];
      while (ss >> x && x != "@") {
        c.ix[k] = atoi(x.substr(1).c_str());
        string name = o.types[k] + std::to_string(c.ix[k]);
        if (x[0] == 'D') dreg = name;
        regs += string(k ? "," : "") + "\"" + x[0] + "\":\"" + name + "\""; ++k;
      }
      vector<int> site; int q; while (ss >> q) site.push_back(q);
      c.site = vt::tom(site);
      save();
      vt::Ev e("op"); e.i("n", n).i("sub", sb + 1).raw("regs", regs + "}").v("site", site);
      c.ev = &e;
      o.fn(c);
      // nothing else may have changed
      string oth = "[";
      for (auto& t : tracked()) if (t.name != dreg && t.bytes() != t.saved) oth += string(oth.size() > 1 ? "," : "") + vt::jstr(t.name);
      e.lraw("others", oth + "]");
    }
  }
  QDP_finalize();
  return 0;
}
