// C21: histories of operations on memory map objects
#include "qdp.h"
#include "xmlstub.h"
#include "qdp_map_obj_memory.h"
#include "vtrace.h"
#include "json.h"
using namespace QDP;
struct Rec { int a, b, c; };
namespace QDP {
void read(BinaryReader& bin, Rec& p) { read(bin, p.a); read(bin, p.b); read(bin, p.c); }
void write(BinaryWriter& bin, const Rec& p) { write(bin, p.a); write(bin, p.b); write(bin, p.c); }
}
static string list(const string& s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return vt::Ev::vec(v); }
static void get(const J& j, int& x) { x = j[0].i(); } static string put(const int& x) { return "[" + vt::Ev::num(x) + "]"; }
static void get(const J& j, Rec& x) { x.a = j[0].i(); x.b = j[1].i(); x.c = j[2].i(); } static string put(const Rec& x) { return vt::Ev::vec(vector<int>{x.a, x.b, x.c}); }
static void get(const J& j, multi1d<int>& x) { x.resize(j.size()); for (size_t k = 0; k < j.size(); ++k) x[k] = j[k].i(); } static string put(const multi1d<int>& x) { return vt::Ev::vec(vt::tov(x)); }
static void get(const J& j, double& x) { unsigned long long u = 0; for (auto& b : j.a) u = u << 8 | b.n; memcpy(&x, &u, 8); }
static string put(const double& x) { unsigned long long u; memcpy(&u, &x, 8); vector<int> v; for (int k = 7; k >= 0; --k) v.push_back(u >> (8 * k) & 255); return vt::Ev::vec(v); }
static void get(const J& j, string& x) { x = j.bytes(); } static string put(const string& x) { return list(x); }
static void get(const J& j, std::pair<string, string>& x) { x.first = j[0].bytes(); x.second = j[1].bytes(); } static string put(const std::pair<string, string>& x) { return "[" + list(x.first) + "," + list(x.second) + "]"; }

template<class K, class V> struct Run { typedef MapObjectMemory<K, V> M; M* m[8] = {}; ~Run() { for (auto p : m) delete p; }
  static K key(const J& j) { K k; get(j, k); return k; } static V val(const J& j) { V v; get(j, v); return v; }
  static string pairs(const vector<K>& k, const vector<V>& v) { string o = "["; for (size_t i = 0; i < k.size(); ++i) o += (i ? ",[" : "[") + put(k[i]) + "," + put(v.at(i)) + "]"; return o + "]"; }
  static string iter(const M& x, bool post) { vector<K> k; vector<V> v; typename M::const_iterator e = x.end();
    for (typename M::const_iterator i = x.begin(); i != e && !(i == e); ) { if (post) { typename M::const_iterator q = i++; k.push_back((*q).first); v.push_back(q->second); } else { k.push_back(i->first); v.push_back((*i).second); ++i; } } return pairs(k, v); }
  string op(const J& j) { const string& o = j[0].s; M*& a = m[j[1].i()]; MapObject<K, V>* b = a;
    auto two = [](int rc, const string& v) { return "[" + std::to_string(rc) + "," + v + "]"; };
    if (o == "new") a = new M; else if (o == "del") { delete b; a = 0; }
    else if (o == "insert") return "[" + std::to_string(b->insert(key(j[2]), val(j[3]))) + "]";
    else if (o == "insertp") return "[" + std::to_string(a->insert(std::make_pair(key(j[2]), val(j[3])))) + "]";
    else if (o == "range") { vector<std::pair<K, V> > v; for (auto& x : j[2].a) v.push_back(std::make_pair(key(x[0]), val(x[1]))); return "[" + std::to_string(a->insert(v.begin(), v.end())) + "]"; }
    else if (o == "range2") { const M& c = *m[j[2].i()]; return "[" + std::to_string(a->insert(c.begin(), c.end())) + "]"; }
    else if (o == "xml") xml(*a, *m[j[2].i()]);
    else if (o == "erase") a->erase(key(j[2])); else if (o == "clear") a->clear(); else if (o == "flush") b->flush();
    else if (o == "at") { const M& c = *a; return "[" + put(c[key(j[2])]) + "]"; } else if (o == "setat") (*a)[key(j[2])] = val(j[3]);
    else if (o == "copy") a = new M(*m[j[2].i()]); else if (o == "assign") *a = *m[j[2].i()];
    else if (o == "ud") return "[" + std::to_string(b->insertUserdata(j[2].bytes())) + "]";
    else if (o == "getud") { string s = "?"; int r = b->getUserdata(s); return two(r, list(s)); }
    else if (o == "get") { V v = val(j[3]); int r = b->get(key(j[2]), v); return two(r, put(v)); }
    else if (o == "exist") return b->exist(key(j[2])) ? "[1]" : "[0]"; else if (o == "size") return "[" + std::to_string(b->size()) + "]";
    else if (o == "keys") { vector<K> k; b->keys(k); string s = "["; for (size_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + put(k[i]); return s + "]"; }
    else if (o == "kv") { vector<K> k(2); vector<V> v(3); a->keysAndValues(k, v); if (k.size() != v.size()) return "[\"sizes\"]"; return pairs(k, v); }
    else if (o == "iter") return iter(*a, false); else if (o == "iter2") return iter(*a, true);
    else { fprintf(stderr, "what is %s\n", o.c_str()); exit(96); }
    return "[]"; }
  template<class A, class B> static void xml(MapObjectMemory<A, B>&, MapObjectMemory<A, B>&) {}
  static void xml(MapObjectMemory<int, int>& a, MapObjectMemory<int, int>& b) { XMLWriter w; write(w, "map", b); XMLReader r(w); read(r, "map", a); }
  void all(const Script& s) { for (auto& x : s.ops) { const J& j = x.first; const string& o = j[0].s; if (o == "map") continue; if (j[1].i() == 0) continue;
      if (o == "lost" || o == "lostw") { vt::Ev("lost").i("m", j[1].i()).raw("key", j[2].text()); const M& c = *m[j[1].i()]; if (o == "lost") put(c[key(j[2])]); else put((*m[j[1].i()])[key(j[2])]); continue; }
      string ret = op(j); string al = "["; bool f = true;
      for (int i = 1; i < 8; ++i) if (m[i]) { vector<K> k; vector<V> v; m[i]->keysAndValues(k, v); al += (f ? "[" : ",[") + std::to_string(i) + "," + pairs(k, v) + "]"; f = false; }
      vt::Ev e("op"); e.raw("op", x.second); e.raw("ret", ret); e.raw("all", al + "]"); } } };
template<class K> static void go(const string& vt, const Script& s) { if (vt == "int") Run<K, int>().all(s); else if (vt == "arr") Run<K, multi1d<int> >().all(s); else Run<K, string>().all(s); }
int main(int argc, char** argv) { QDP_initialize(&argc, &argv); vt::open();
#ifdef ARCH_PARSCALAR
  multi1d<int> L(Nd); L = 4; Layout::setLattSize(L); Layout::create();
#endif
  Script s(vt::arg(argc, argv, "script", "")); string k = s.ops[0].first[1].s, v = s.ops[0].first[2].s; vt::Ev("map").s("k", k).s("v", v);
  if (k == "int") go<int>(v, s); else if (k == "rec") go<Rec>(v, s); else if (k == "arr") go<multi1d<int> >(v, s); else if (k == "dbl") go<double>(v, s); else if (k == "str") go<string>(v, s); else go<std::pair<string, string> >(v, s);
  QDP_finalize(); return 0; }
