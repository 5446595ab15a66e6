// Replays histories of set and subset operations.  --dims=.. --script=file
#include "vtrace.h"
#include <fstream>
using namespace QDP;
struct Fun : public SetFunc {
  int id; explicit Fun(int i) : id(i) {}
  int operator()(const multi1d<int>& x) const {
    long g = vt::lexi(x, Layout::lattSize());
    switch (id) {
      case 1: return x[Nd-1] % 4;                   // time slices
      case 2: return x[0] & 1;
      case 3: return 2;                             // only one of five colours used
      case 4: return vt::hash64(g * 7 + 3) % 3;     // irregular
      case 5: return (g == 0) ? 1 : 0;              // a single site
      case 6: return (x[0] + 2 * x[1]) % 3;
      case 7: return g % 7;
      case 8: return x[Nd-1] >= Layout::lattSize()[Nd-1] / 2;
    }
    return 0;
  }
  int numSubsets() const {
    switch (id) { case 1: return 4; case 2: return 2; case 3: return 5; case 4: return 3; case 5: return 2; case 6: return 3; case 7: return 7; case 8: return 2; }
    return 1;
  }
};
static string subj(const Subset& s, const Set* of) {
  vector<int> t; for (int i = 0; i < s.siteTable().size(); ++i) t.push_back(s.siteTable()[i]);
  string o = "{\"tab\":" + vt::Ev::vec(t) + ",\"num\":" + std::to_string(s.numSiteTable()) + ",\"color\":" + std::to_string(s.color()) +
    ",\"ordered\":" + (s.hasOrderedRep() ? "true" : "false") + ",\"start\":" + std::to_string(s.start()) + ",\"end\":" + std::to_string(s.end()) +
    ",\"mine\":" + ((!of || &s.getSet() == of) ? "true" : "false") + "}";
  return o;
}
static string setj(const Set& s) {
  string o = "{\"live\":true,\"n\":" + std::to_string(s.numSubsets()) + ",\"latcol\":";
  vector<int> t; for (int i = 0; i < s.latticeColoring().size(); ++i) t.push_back(s.latticeColoring()[i]);
  o += vt::Ev::vec(t) + ",\"subs\":[";
  for (int i = 0; i < s.numSubsets(); ++i) o += (i ? "," : "") + subj(s[i], &s);
  return o + "]}";
}
static void defaults() {
  vt::Ev("defaults").lraw("rb", setj(rb)).lraw("rb3", setj(rb3)).lraw("mcb", setj(mcb)).lraw("all", subj(all, 0)).lraw("even", subj(even, 0)).lraw("odd", subj(odd, 0));
}
static void lattice(const multi1d<int>& L) {
  Layout::setLattSize(L); Layout::create();
  vt::Ev("lattice").v("dims", vt::tov(L)).lvv("sites", vt::mysites());
  defaults();
  string f = "[";
  for (int id = 1; id <= 8; ++id) {
    Fun fn(id); vector<int> col; multi1d<int> x(Nd);
    for (int g = 0; g < Layout::vol(); ++g) { int k = g; for (int m = 0; m < Nd; ++m) { x[m] = k % L[m]; k /= L[m]; } col.push_back(fn(x)); }
    f += string(id > 1 ? "," : "") + "{\"n\":" + std::to_string(fn.numSubsets()) + ",\"col\":" + vt::Ev::vec(col) + "}";
  }
  vt::Ev("funs").raw("f", f + "]");
}
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  vector<string> dims; { std::stringstream ss(vt::arg(argc, argv, "dims", "4,4,2,4")); string t; while (std::getline(ss, t, '/')) dims.push_back(t); }
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  string line; size_t nd = 0;
  Set* st[5] = {0, 0, 0, 0, 0}; Subset sb[5]; bool sv[5] = {false, false, false, false, false}; int so[5] = {0};
  auto detach = [&](int k) { for (int q = 1; q <= 4; ++q) if (sv[q] && so[q] == k) sv[q] = false; };
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; ss >> op; vector<int> a; int v; while (ss >> v) a.push_back(v);
    if (op == "lattice") {
      for (int k = 1; k <= 4; ++k) { delete st[k]; st[k] = 0; sv[k] = false; }
      lattice(vt::parsedims(dims[nd++ % dims.size()].c_str())); continue;
    }
    if (op == "make") { if (!st[a[0]]) { if (a[1] & 1) st[a[0]] = new Set(Fun(a[1])); else { st[a[0]] = new Set; st[a[0]]->make(Fun(a[1])); } } else st[a[0]]->make(Fun(a[1])); detach(a[0]); }
    else if (op == "copy") { Set* n = new Set(*st[a[1]]); delete st[a[0]]; st[a[0]] = n; detach(a[0]); }
    else if (op == "assign") { *st[a[0]] = *st[a[1]]; if (a[0] != a[1]) detach(a[0]); }
    else if (op == "drop") { delete st[a[0]]; st[a[0]] = 0; detach(a[0]); }
    else if (op == "take") { if (a[2] & 1) sb[a[0]] = (*st[a[1]])[a[2]]; else sb[a[0]].make((*st[a[1]])[a[2]]); sv[a[0]] = true; so[a[0]] = a[1]; }
    else if (op == "copysub") { Subset tmp(sb[a[1]]); sb[a[0]] = tmp; sv[a[0]] = true; so[a[0]] = so[a[1]]; }
    string sj = "[", qj = "[";
    for (int k = 1; k <= 4; ++k) sj += (k > 1 ? "," : "") + (st[k] ? setj(*st[k]) : string("{\"live\":false}"));
    for (int q = 1; q <= 4; ++q) qj += (q > 1 ? "," : "") + (sv[q] ? subj(sb[q], st[so[q]]) : string("{\"live\":false}"));
    vt::Ev("op").s("op", op).v("a", a).lraw("sets", sj + "]").lraw("subs", qj + "]");
  }
  defaults();
  QDP_finalize();
  return 0;
}
