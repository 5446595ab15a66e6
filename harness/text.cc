// Replays histories of text I/O: readers and writers (--mode=text) or QDPIO::cin/cout/cerr (--mode=stdio).
#include "vtrace.h"
#include <fstream>
#include <iostream>
using namespace QDP;
static string bytesj(const string& s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return vt::Ev::vec(v); }
// ---- a value: its type and its text, independent of any stream
struct Val { string t, x; };
static string fromcodes(const string& s) { string o; if (s == "-") return o; std::stringstream ss(s); string q; while (std::getline(ss, q, '.')) o += (char)atoi(q.c_str()); return o; }
static bool isfloat(const string& t) { return t == "float" || t == "double" || t == "ldouble"; }
static string decimal(const Val& v) { int neg, x; char d[400]; sscanf(v.x.c_str(), "%d:%399[0-9]:%d", &neg, d, &x); return string(neg ? "-" : "") + d[0] + "." + (d[1] ? d + 1 : "0") + "e" + std::to_string(x); }
static string jval(const Val& v) {
  if (isfloat(v.t)) { int neg, x; char d[400]; sscanf(v.x.c_str(), "%d:%399[0-9]:%d", &neg, d, &x); vector<int> dg; for (char* c = d; *c; ++c) dg.push_back(*c - '0');
    return "{\"t\":" + vt::jstr(v.t) + ",\"neg\":" + (neg ? "true" : "false") + ",\"d\":" + vt::Ev::vec(dg) + ",\"x\":" + std::to_string(x) + "}"; }
  if (v.t == "bool") return "{\"t\":\"bool\",\"v\":[" + v.x + "]}";
  return "{\"t\":" + vt::jstr(v.t) + ",\"v\":" + bytesj(v.x) + "}";
}
static string jvals(const vector<Val>& v) { string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += jval(v[i]); } return o + "]"; }
// what was read, in canonical form
template<class T> string got(const char* t, T x) { Val v; v.t = t; v.x = std::to_string(x); return jval(v); }
static string gotf(const char* t, long double x, int sure) { char b[80]; snprintf(b, sizeof b, "%.*Le", sure - 1, x); Val v; v.t = t; string s = b; bool neg = s[0] == '-'; if (neg) s = s.substr(1); size_t e = s.find('e'); int ex = e == string::npos ? 9999 : atoi(s.c_str() + e + 1); string d; for (char c : s.substr(0, e)) if (isdigit(c)) d += c; if (d.find_first_not_of('0') == string::npos) { d = "0"; ex = 0; } v.x = string(neg ? "1" : "0") + ":" + d + ":" + std::to_string(ex); return jval(v); }
static string got(const char* t, float x) { return gotf(t, x, 6); } static string got(const char* t, double x) { return gotf(t, x, 15); } static string got(const char* t, long double x) { return gotf(t, x, 18); }
static string got(const char* t, bool x) { int b = *(unsigned char*)&x; return "{\"t\":\"bool\",\"v\":[" + std::to_string(48 + b) + "]}"; }
static string got(const char* t, char x) { Val v; v.t = t; v.x = string(1, x); return jval(v); }
static string got(const char* t, const string& x) { Val v; v.t = t; v.x = x; return jval(v); }
static const char* RE = sizeof(REAL) == 4 ? "float" : "double";
typedef WordType<Real>::Type_t W;
template<class T> T num(const Val& v);
template<> float num<float>(const Val& v) { return strtof(decimal(v).c_str(), 0); } template<> double num<double>(const Val& v) { return strtod(decimal(v).c_str(), 0); } template<> long double num<long double>(const Val& v) { return strtold(decimal(v).c_str(), 0); }
// ---- the streams
struct Dst { TextWriter* w; StandardOutputStream* s; };
struct Src { TextReader* r; StandardInputStream* s; };
static int variant;
template<class T> void put(Dst& d, const T& x) { if (d.s) *d.s << x; else if (variant & 1) d.w->write(x); else *d.w << x; }
static void put(Dst& d, const char& x) { if (d.s) *d.s << x; else d.w->write(x); }
static void puts_(Dst& d, const string& x) { if (variant & 2) { if (d.s) *d.s << x.c_str(); else if (variant & 1) d.w->write(x.c_str()); else *d.w << x.c_str(); } else put(d, x); }
template<class Q> void putq(Dst& d, const Q& x) { if (d.s) *d.s << x; else *d.w << x; }
static void putv(Dst& d, const Val& v) {
  const string &t = v.t, &x = v.x;
  if (t == "int") put(d, (int)strtoll(x.c_str(), 0, 10)); else if (t == "uint") put(d, (unsigned)strtoull(x.c_str(), 0, 10)); else if (t == "short") put(d, (short)strtol(x.c_str(), 0, 10)); else if (t == "ushort") put(d, (unsigned short)strtoul(x.c_str(), 0, 10));
  else if (t == "long") put(d, strtol(x.c_str(), 0, 10)); else if (t == "ulong") put(d, strtoul(x.c_str(), 0, 10)); else if (t == "llong") put(d, strtoll(x.c_str(), 0, 10));
  else if (t == "float") put(d, num<float>(v)); else if (t == "double") put(d, num<double>(v)); else if (t == "ldouble") { if (d.s) *d.s << num<long double>(v); }
  else if (t == "bool") put(d, x == "1"); else if (t == "char") put(d, x[0]); else puts_(d, x);
}
template<class T> T& junk(T& x, int i) { memset((void*)&x, i ? 0x11 : 0x22, sizeof x); return x; }
template<class T> void take(Src& s, T& x) { if (s.s) *s.s >> x; else if (variant & 1) s.r->read(x); else *s.r >> x; }
template<class T> string getT(Src& s, const char* t) { T x; junk(x, vt::myrank()); take(s, x); return got(t, x); }
static string getv(Src& s, const string& t) {
  if (t == "int") return getT<int>(s, "int"); if (t == "uint") return getT<unsigned>(s, "uint"); if (t == "short") return getT<short>(s, "short"); if (t == "ushort") return getT<unsigned short>(s, "ushort");
  if (t == "long") return getT<long>(s, "long"); if (t == "ulong") return getT<unsigned long>(s, "ulong"); if (t == "llong") return getT<long long>(s, "llong"); if (t == "float") return getT<float>(s, "float"); if (t == "double") return getT<double>(s, "double");
  if (t == "ldouble") { long double x = 7; if (s.s) *s.s >> x; return got("ldouble", x); }
  if (t == "bool") { bool x = vt::myrank() & 1; take(s, x); return got("bool", x); } if (t == "char") return getT<char>(s, "char");
  string x = vt::myrank() ? "other junk" : "junk"; take(s, x); return got("string", x);
}
// composites: their words
template<class T> struct Words { typedef typename WordType<T>::Type_t Wd; static int n() { T x; return sizeof(x.elem()) / sizeof(Wd); } static Wd* p(T& x) { return (Wd*)&x.elem(); } };
template<class W_> void setw(W_& w, const Val& v) { w = std::is_same<W_, float>::value ? (W_)num<float>(v) : std::is_same<W_, double>::value ? (W_)num<double>(v) : (W_)strtoll(v.x.c_str(), 0, 10); }
template<class T> void putc_(Dst& d, const vector<Val>& v) { T x; for (size_t i = 0; i < v.size(); ++i) setw(Words<T>::p(x)[i], v[i]); putq(d, x); }
static const char* wname(float*) { return "float"; } static const char* wname(double*) { return "double"; } static const char* wname(int*) { return "int"; } static const char* wname(bool*) { return "bool"; }
template<class T> string getc_(Src& s) { T x; typedef typename Words<T>::Wd Wd; Wd* p = Words<T>::p(x); for (int i = 0; i < Words<T>::n(); ++i) p[i] = Wd(3); if (s.s) abort(); else *s.r >> x; string o = "["; for (int i = 0; i < Words<T>::n(); ++i) { if (i) o += ','; o += got(wname((Wd*)0), p[i]); } return o + "]"; }
template<class T> string gets_(Src& s) { T x; typedef typename Words<T>::Wd Wd; Wd* p = Words<T>::p(x); for (int i = 0; i < Words<T>::n(); ++i) p[i] = Wd(1 + vt::myrank()); if (s.s) *s.s >> x; else *s.r >> x; string o = "["; for (int i = 0; i < Words<T>::n(); ++i) { if (i) o += ','; o += got(wname((Wd*)0), p[i]); } return o + "]"; }
typedef OScalar<PSpinVector<PScalar<RComplex<REAL> >, 4> > SpinVec;
// one statement
static void putstmt(Dst& d, const string& o, const vector<Val>& v) {
  if (o == "-") { for (auto& x : v) putv(d, x); }
  else if (o == "Real") putc_<Real>(d, v); else if (o == "RealD") putc_<RealD>(d, v); else if (o == "Integer") putc_<Integer>(d, v); else if (o == "Boolean") { Boolean b; b = v[0].x == "1"; putq(d, b); }
  else if (o == "Complex") putc_<Complex>(d, v); else if (o == "ComplexD") putc_<ComplexD>(d, v); else if (o == "ColorVector") putc_<ColorVector>(d, v); else if (o == "SpinVector") putc_<SpinVec>(d, v); else if (o == "Fermion") putc_<Fermion>(d, v); else if (o == "Seed") putc_<Seed>(d, v);
  else if (o == "ColorMatrix") { if (d.s) abort(); ColorMatrix x; for (size_t i = 0; i < v.size(); ++i) setw(Words<ColorMatrix>::p(x)[i], v[i]); *d.w << x; }
  else if (o == "SpinMatrix") { if (d.s) abort(); SpinMatrix x; for (size_t i = 0; i < v.size(); ++i) setw(Words<SpinMatrix>::p(x)[i], v[i]); *d.w << x; }
  else if (o == "RealExpr") { if (!d.s) abort(); Real x, z = 0; setw(Words<Real>::p(x)[0], v[0]); *d.s << (x + z); }
  else if (o == "ComplexExpr") { if (!d.s) abort(); Complex x, z = 0; for (int i = 0; i < 2; ++i) setw(Words<Complex>::p(x)[i], v[i]); *d.s << (x + z); }
  else abort();
}
static string getstmt(Src& s, const string& o, const string& t, int n) {
  if (o == "-") { return "[" + getv(s, t) + "]"; }
  if (o == "A") { string j = "["; if (t == "int") { multi1d<int> a(n); a = 7; *s.s >> a; for (int i = 0; i < n; ++i) j += (i ? "," : "") + got("int", a[i]); } else { multi1d<double> a(n); a = 7; *s.s >> a; for (int i = 0; i < n; ++i) j += (i ? "," : "") + got("double", a[i]); } return j + "]"; }
  if (o == "Real") return gets_<Real>(s); if (o == "RealD") return gets_<RealD>(s); if (o == "Integer") return gets_<Integer>(s); if (o == "Seed") return gets_<Seed>(s); if (o == "Boolean") return gets_<Boolean>(s);
  if (o == "Complex") return getc_<Complex>(s); if (o == "ComplexD") return getc_<ComplexD>(s); if (o == "ColorVector") return getc_<ColorVector>(s); if (o == "SpinVector") return getc_<SpinVec>(s); if (o == "Fermion") return getc_<Fermion>(s);
  if (o == "ColorMatrix") return getc_<ColorMatrix>(s); if (o == "SpinMatrix") return getc_<SpinMatrix>(s);
  abort();
}
static vector<Val> parse(std::stringstream& ss, const string& o) {
  vector<Val> v; string t, x; while (ss >> t >> x) { if (t == "real") t = RE; Val y; y.t = t; y.x = t == "string" || t == "char" ? fromcodes(x) : x; v.push_back(y); } return v;
}
// ---- a stream buffer which records what arrives
struct Rec : std::streambuf { string s; int syncs; Rec() : syncs(0) {} int overflow(int c) { if (c != EOF) s += (char)c; return c; } std::streamsize xsputn(const char* p, std::streamsize n) { s.append(p, n); return n; } int sync() { ++syncs; return 0; } };
struct Feed : std::streambuf { string s; void set(const string& x) { s = x; setg(&s[0], &s[0], &s[0] + s.size()); } int left() { return egptr() - gptr(); } };
static vector<int> fmtof(std::ostream& o) { auto f = o.flags(); int base = f & std::ios::hex ? 16 : f & std::ios::oct ? 8 : 10; int ff = f & std::ios::scientific ? 1 : f & std::ios::fixed ? 2 : 0; return {base, ff, f & std::ios::boolalpha ? 1 : 0, f & std::ios::showpos ? 1 : 0, f & std::ios::uppercase ? 1 : 0, (int)o.precision()}; }

int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L(Nd); L = 2; Layout::setLattSize(L); Layout::create();
  string mode = vt::arg(argc, argv, "mode", "text"), fname = vt::arg(argc, argv, "file", "text.dat");
  std::ifstream in(vt::arg(argc, argv, "script", "").c_str()); string line;
  auto disk = [&]() { string s; if (Layout::primaryNode()) { std::ifstream f(fname.c_str(), std::ios::binary); std::stringstream t; t << f.rdbuf(); s = t.str(); } int n = s.size(); QDPInternal::broadcast(n); s.resize(n); if (n) QDPInternal::broadcast((void*)&s[0], n); return s; };
  if (mode == "text") {
    TextFileReader* fr = 0; TextFileWriter* fw = 0; TextBufferReader* br = 0; TextBufferWriter* bw = 0;
    string content;
    while (std::getline(in, line)) {
      std::stringstream ss(line); string op; ss >> op;
      TextReader* r = fr ? (TextReader*)fr : (TextReader*)br; TextWriter* w = fw ? (TextWriter*)fw : (TextWriter*)bw;
      if (op == "prepare") { string b; ss >> b; b = fromcodes(b); content = b; if (Layout::primaryNode()) { std::ofstream f(fname.c_str(), std::ios::binary); f << b; } QDPInternal::broadcast(op); vt::Ev("prepare").raw("b", bytesj(b)); }
      else if (op == "open") { string k; int h; ss >> k >> h; string b; bool op_ = false;
        // what the other nodes pass to a buffer does not matter
        string arg = Layout::primaryNode() ? content : "elsewhere 4 5 6";
        if (k == "FR") { if (h) fr = new TextFileReader(fname); else { fr = new TextFileReader; fr->open(fname); } op_ = fr->is_open(); r = fr; }
        else if (k == "FW") { if (h) fw = new TextFileWriter(fname); else { fw = new TextFileWriter; fw->open(fname); } op_ = fw->is_open(); w = fw; }
        else if (k == "BR") { if (h) br = new TextBufferReader(arg); else { br = new TextBufferReader; br->open(arg); } r = br; b = content; }
        else { if (h == 2) bw = new TextBufferWriter(arg), b = content; else if (h == 1) { bw = new TextBufferWriter; } else { bw = new TextBufferWriter; bw->open(arg); b = content; } w = bw; }
        int fl = k == "FR" || k == "BR" ? r->fail() : w->fail();
        vt::Ev("open").s("k", k).i("fail", fl).i("open", op_).raw("b", bytesj(b)); }
      else if (op == "w") { string o; ss >> o >> variant; vector<Val> v = parse(ss, o), v0 = v; Dst d = {w, 0}; putstmt(d, o, v); int fl = w->fail(); vt::Ev("w").s("o", o).raw("vs", jvals(v)).i("fail", fl).b("kept", true); }
      else if (op == "r") { string o, t; int n; ss >> o >> variant >> t >> n; Src s = {r, 0}; string j = getstmt(s, o, t, n); int fl = r->fail(); vt::Ev("r").s("o", o).raw("vs", j).i("fail", fl); }
      else if (op == "flush") { if (fw) fw->flush(); else if (bw) bw->flush(); vt::Ev("flush").raw("b", bytesj(disk())); }
      else if (op == "str") { string s = br ? br->str() : bw->str(), p = br ? br->strPrimaryNode() : bw->strPrimaryNode(); vt::Ev("str").raw("b", bytesj(s)).lraw("prim", bytesj(p)); }
      else if (op == "close") { int h, still = 0; ss >> h; if (bw) content = bw->str(); if (h) { if (fr) { fr->close(); still = fr->is_open(); } if (fw) { fw->close(); still = fw->is_open(); } }
        delete fr; delete fw; delete br; delete bw; if (fr || fw) content = disk(); fr = 0; fw = 0; br = 0; bw = 0; vt::Ev("close").i("open", still).raw("b", bytesj(disk())); }
    }
    delete fr; delete fw; delete br; delete bw;
  } else {
    Rec ro, re; Feed fi; std::streambuf *bo = std::cout.rdbuf(&ro), *be = std::cerr.rdbuf(&re), *bi = std::cin.rdbuf(&fi); std::cin.tie(0); std::cout << std::dec; std::cerr << std::nounitbuf;
    int all = 0; // input of the other nodes
    while (std::getline(in, line)) {
      std::stringstream ss(line); string op, s; ss >> op;
      ro.s.clear(); re.s.clear(); ro.syncs = re.syncs = 0;
      auto rec = [&](vt::Ev& e, const string& s) { Rec &a = s == "cout" ? ro : re, &b = s == "cout" ? re : ro; e.lraw("out", bytesj(a.s)).lraw("other", bytesj(b.s)).li("sync", a.syncs).lv("fmt", fmtof(s == "cout" ? std::cout : std::cerr)); };
      if (op == "input") { string b; ss >> b; b = fromcodes(b); string mine = Layout::primaryNode() ? b : string("77 88 99 0.5 word 11 12"); std::cin.clear(); fi.set(mine); all = fi.left(); vt::Ev("input").raw("b", bytesj(b)); continue; }
      if (op == "r") { string o, t; int n; ss >> o >> variant >> t >> n; Src q = {0, &QDPIO::cin}; string j = getstmt(q, o, t, n); int fl = QDPIO::cin.fail(); vt::Ev e("r"); e.s("o", o).raw("vs", j).i("fail", fl).li("left", fi.left()).li("all", all); continue; }
      ss >> s; StandardOutputStream& q = s == "cout" ? QDPIO::cout : QDPIO::cerr; std::ostream& u = s == "cout" ? std::cout : std::cerr;
      if (op == "w") { string o; ss >> o >> variant; vector<Val> v = parse(ss, o); Dst d = {0, &q}; putstmt(d, o, v); int fl = q.fail(); vt::Ev e("w"); e.s("s", s).s("o", o).raw("vs", jvals(v)).i("fail", fl); rec(e, s); }
      else if (op == "m") { string m; ss >> m; if (m == "endl") q << std::endl; else if (m == "ends") q << std::ends; else q << std::flush; vt::Ev e("m"); e.s("s", s).s("m", m); rec(e, s); }
      else if (op == "set") { string m; ss >> m; if (m == "hex") u << std::hex; else if (m == "oct") u << std::oct; else if (m == "dec") u << std::dec; else if (m == "fixed") u << std::fixed; else if (m == "scientific") u << std::scientific; else if (m == "general") u.unsetf(std::ios::floatfield);
        else if (m == "boolalpha") u << std::boolalpha; else if (m == "noboolalpha") u << std::noboolalpha; else if (m == "showpos") u << std::showpos; else if (m == "noshowpos") u << std::noshowpos; else if (m == "uppercase") u << std::uppercase; else u << std::nouppercase;
        vt::Ev e("set"); e.s("s", s).s("m", m); rec(e, s); }
      else if (op == "prec") { int p; ss >> p; u.precision(p); vt::Ev("prec").s("s", s).i("p", p); }
      else if (op == "flush") { q.flush(); vt::Ev e("flush"); e.s("s", s); rec(e, s); }
    }
    std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::cin.rdbuf(bi);
  }
  QDP_finalize();
  return 0;
}
