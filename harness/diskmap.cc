// C22: histories of operations on disk map objects, by a sequence of processes
#include <array>
#include "qdp.h"
#include "qdp_map_obj_disk.h"
#include "qdp_disk_map_slice.h"
#include "vtrace.h"
#include "json.h"
#include <unistd.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace QDP;
struct Rec { int a, b, c; };
struct Text { string s; };
namespace QDP {
void read(BinaryReader& bin, Text& p) { readDesc(bin, p.s); }
void write(BinaryWriter& bin, const Text& p) { writeDesc(bin, p.s); }
void read(BinaryReader& bin, Rec& p) { read(bin, p.a); read(bin, p.b); read(bin, p.c); }
void write(BinaryWriter& bin, const Rec& p) { write(bin, p.a); write(bin, p.b); write(bin, p.c); }
}
// the standard library writes files through these: the process dies when its time has come
static int countdown = -1;
static void tick() { if (countdown >= 0 && countdown-- == 0) _exit(77); }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (fd > 2) tick(); return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { if (fd > 2) tick(); return syscall(SYS_writev, fd, v, n); }

static string list(const string& s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return vt::Ev::vec(v); }
static void get(const J& j, int& x) { x = j[0].i(); } static string put(const int& x) { return "[" + vt::Ev::num(x) + "]"; }
static void get(const J& j, Rec& x) { x.a = j[0].i(); x.b = j[1].i(); x.c = j[2].i(); } static string put(const Rec& x) { return vt::Ev::vec(vector<int>{x.a, x.b, x.c}); }
static void get(const J& j, multi1d<double>& x) { x.resize(j.size()); for (size_t k = 0; k < j.size(); ++k) x[k] = j[k].i(); } static string put(const multi1d<double>& x) { vt::dvec v; for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); return vt::Ev::dv(v); }
static void get(const J& j, Text& x) { x.s = j.bytes(); } static string put(const Text& x) { return list(x.s); }
static void get(const J& j, std::pair<Text, Text>& x) { x.first.s = j[0].bytes(); x.second.s = j[1].bytes(); } static string put(const std::pair<Text, Text>& x) { return "[" + list(x.first.s) + "," + list(x.second.s) + "]"; }
template<class K> static int slice(const K&) { return 0; } static int slice(const int& k) { return k & 3; }
// a value, made for a key
template<class V> struct Val { V v; template<class K> explicit Val(const K&) : v() {} V& ref() { return v; } void set(const J& j) { get(j, v); } string text() { return put(v); } };
struct Slice {};
template<> struct Val<Slice> { LatticeReal f; int t; TimeSliceIO<LatticeReal> io; template<class K> explicit Val(const K& k) : t(slice(k)), io(f, slice(k)) { f = -7; }
  TimeSliceIO<LatticeReal>& ref() { return io; }
  multi1d<int> at(int i) { multi1d<int> x(Nd); for (int m = 0; m < Nd - 1; ++m) { x[m] = i % Layout::lattSize()[m]; i /= Layout::lattSize()[m]; } x[Nd - 1] = t; return x; }
  void set(const J& j) { for (size_t i = 0; i < j.size(); ++i) { Real r = double(j[i].n); pokeSite(f, r, at(i)); } }
  string text() { vt::dvec v; for (int i = 0; i < Layout::vol() / Layout::lattSize()[Nd - 1]; ++i) v.push_back(toDouble(Real(peekSite(f, at(i))))); return vt::Ev::dv(v); } };
template<class V> struct Obj { typedef V type; }; template<> struct Obj<Slice> { typedef TimeSliceIO<LatticeReal> type; };
static string slurp(const string& n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spill(const string& n, const string& s) { std::ofstream f(n, std::ios::binary | std::ios::trunc); f.write(s.data(), s.size()); }

template<class K, class V> struct Run { typedef MapObjectDisk<K, typename Obj<V>::type> M; M* m[8] = {}; string dir;
  string name(int f) { return dir + "/db" + std::to_string(f); }
  static K key(const J& j) { K k; get(j, k); return k; }
  static string keys(const M& x) { vector<K> k; x.keys(k); string s = "["; for (size_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + put(k[i]); return s + "]"; }
  string op(const J& j) { const string& o = j[0].s; int a = j[1].i();
    auto one = [](long long r) { return "[" + std::to_string(r) + "]"; }; auto two = [](int rc, const string& v) { return "[" + std::to_string(rc) + "," + v + "]"; };
    if (o == "make") m[a] = new M; else if (o == "drop") { delete m[a]; m[a] = 0; }
    else if (o == "ud") return one(m[a]->insertUserdata(j[2].bytes()));
    else if (o == "getud") { string s = "?"; int r = m[a]->getUserdata(s); return two(r, list(s)); }
    else if (o == "open") { std::ios_base::openmode q = std::ios_base::in; if (j[3].s != "r") q |= std::ios_base::out; if (j[3].s == "new") q |= std::ios_base::trunc;
      try { if (j[3].s == "rw") m[a]->open(name(j[2].i())); else m[a]->open(name(j[2].i()), q); } catch (const string&) { return "[\"throw\"]"; } }
    else if (o == "close") m[a]->close(); else if (o == "flush") m[a]->flush();
    else if (o == "insert") { K k = key(j[2]); Val<V> v(k); v.set(j[3]); return one(m[a]->insert(k, v.ref())); }
    else if (o == "get") { K k = key(j[2]); Val<V> v(k); v.set(j[3]); int r = m[a]->get(k, v.ref()); return two(r, v.text()); }
    else if (o == "exist") return one(m[a]->exist(key(j[2])) ? 1 : 0); else if (o == "size") return one(m[a]->size());
    else if (o == "keys") keys(*m[a]);
    else if (o == "meta") return list(MapObjDiskEnv::getMetaData(name(a)));
    else if (o == "exists") { M x; return one(x.fileExists(name(a)) ? 1 : 0); }
    else if (o == "junk") { if (Layout::primaryNode()) { string s; switch (j[2].i()) { case 0: break; case 1: s = string(1, '\0') + string(200, 'x'); break; case 2: s = slurp(name(a)); if (s.size() > 8) s[8] = 33; else s = "abc"; break; case 3: s = "# not a map\n1 2 3\n"; break; default: s = string(100, '\0'); } spill(name(a), s); } return one(1); }
    else if (o == "cut") { struct stat b; if (stat(name(a).c_str(), &b)) return one(0); if (Layout::primaryNode() && truncate(name(a).c_str(), b.st_size > j[2].n ? b.st_size - j[2].n : 0)) exit(94); return one(1); }
    else if (o == "flip") { K k{}; Val<V> v(k); return one(flip(name(a), v, j)); }
    else { fprintf(stderr, "what is %s\n", o.c_str()); exit(96); }
    return "[]"; }
  template<class X> static int flip(const string& n, Val<X>& v, const J& j) { v.set(j[2]); BinaryBufferWriter b; write(b, v.ref()); string w = b.str(), s = slurp(n); size_t p = s.find(w); if (w.size() < 3 || p == string::npos || s.find(w, p + 1) != string::npos) return 0;
    s[p + j[3].n % w.size()] ^= (char)j[4].n; spill(n, s); return 1; }
  void mark(char c, size_t i) { if (vt::myrank() == 0) { FILE* f = fopen((dir + "/at").c_str(), "w"); fprintf(f, "%c%zu", c, i); fclose(f); } }
  // runs from line i on; returns after the segment
  void all(const Script& s, size_t i) { for (; i < s.ops.size(); ++i) { const J& j = s.ops[i].first; const string& o = j[0].s; if (o == "map") { vt::Ev("map").s("k", j[1].s).s("v", j[2].s); continue; }
      if (o == "seg") _exit(77); if (o == "arm") { countdown = j[1].i(); continue; }
      mark('o', i);
      // what the history does to the files itself is not cut short
      int left = countdown; if (o == "junk" || o == "flip" || o == "cut") countdown = -1; string ret = op(j); if (countdown >= 0) left = countdown; countdown = -1; string al = "["; bool f = true;
      for (int q = 1; q < 8; ++q) if (m[q]) { string ud; if (m[q]->getUserdata(ud) == 0) { al += (f ? "[" : ",[") + std::to_string(q) + "," + keys(*m[q]) + "]"; f = false; } }
      { vt::Ev e("op"); e.raw("op", s.ops[i].second); e.raw("ret", ret); e.raw("keys", al + "]"); } mark('b', i + 1); countdown = left; }
    countdown = -1;
    for (auto& p : m) delete p; } };
template<class K> static void go(const string& vt, const Script& s, size_t i, const string& d) { if (vt == "int") { Run<K, int> r; r.dir = d; r.all(s, i); } else if (vt == "arr") { Run<K, multi1d<double> > r; r.dir = d; r.all(s, i); } else if (vt == "ts") { Run<K, Slice> r; r.dir = d; r.all(s, i); } else { Run<K, Text> r; r.dir = d; r.all(s, i); } }
static void life(int argc, char** argv, const Script& s, size_t i, const string& d) { QDP_initialize(&argc, &argv); vt::open();
  multi1d<int> L(Nd); L = 2; L[0] = 4; L[3] = 4; Layout::setLattSize(L); Layout::create();
  string k = s.ops[0].first[1].s, v = s.ops[0].first[2].s;
  if (k == "int") go<int>(v, s, i, d); else if (k == "rec") go<Rec>(v, s, i, d); else if (k == "desc") go<Text>(v, s, i, d); else go<std::pair<Text, Text> >(v, s, i, d); }
int main(int argc, char** argv) { string d = vt::arg(argc, argv, "dir", "."); Script s(vt::arg(argc, argv, "script", ""));
  if (vt::arg(argc, argv, "kill", "0") == "0") { life(argc, argv, s, 0, d); QDP_finalize(); return 0; }
  // one child per life; its trace is appended
  size_t i = 0; string out = getenv("VT_OUT") + string(".0"); { FILE* f = fopen(out.c_str(), "w"); fclose(f); } int lives = 0;
  while (i < s.ops.size() && ++lives < 200) { string at = d + "/at"; remove(at.c_str()); pid_t p = fork();
    if (p == 0) { alarm(60); struct rlimit lim = {1ul << 30, 1ul << 30}; setrlimit(RLIMIT_AS, &lim); vt::file() = fopen(out.c_str(), "a"); life(argc, argv, s, i, d); fflush(0); _exit(0); }
    int w; waitpid(p, &w, 0); int rc = WIFEXITED(w) ? WEXITSTATUS(w) : -WTERMSIG(w); if (rc == 0) break;
    size_t a = i; char c = 'b'; FILE* f = fopen(at.c_str(), "r"); if (f) { if (fscanf(f, "%c%zu", &c, &a) != 2) a = i; fclose(f); }
    size_t e = a; while (e < s.ops.size() && s.ops[e].first[0].s != "seg") ++e;
    FILE* o = fopen(out.c_str(), "a"); fprintf(o, "{\"a\":{\"e\":\"died\",\"op\":%s,\"rc\":%d},\"l\":{}}\n", c == 'b' ? "[\"seg\",1]" : s.ops[a].second.c_str(), rc); fclose(o); i = e + 1; }
  return 0; }
