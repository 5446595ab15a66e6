// Replays histories of gauge archive operations.  --dims --script --file
#include "vtrace.h"
#include "qdp_iogauge.h"
#include <fstream>
using namespace QDP;
namespace QDP {
void readArchiv(BinaryReader& cfg_in, multi1d<LatticeColorMatrix>& u, n_uint32_t& checksum, int mat_size, int float_size);
void writeArchiv(BinaryWriter& cfg_out, const multi1d<LatticeColorMatrix>& u, int mat_size);
}
static multi1d<LatticeColorMatrix> u; static int gen = 0; static string fname;
static vector<int> half(unsigned c) { return {int(c >> 16), int(c & 65535)}; }
// a special unitary matrix whose entries are 0, +-1, +-i; or (kind 1) small integers
static vt::dvec site(int kind, long g, int mu, int z) {
  unsigned long long h = vt::hash64(((gen * 4LL + mu) * 100003 + g) * 7 + z); vt::dvec v(18, 0.0);
  if (kind == 1) { for (double& x : v) { x = (int)(h % 9) - 4; h = vt::hash64(h); } return v; }
  if (kind == 2) { for (double& x : v) { x = (int)(h % 2000001) - 1000000; h = vt::hash64(h); } return v; }
  static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
  int p = h % 6, a = (h >> 8) & 3, b = (h >> 10) & 3, c = ((p < 3 ? 0 : 2) + 8 - a - b) & 3; int ph[3] = {a, b, c};
  for (int r = 0; r < 3; ++r) { double re[4] = {1, 0, -1, 0}, im[4] = {0, 1, 0, -1}; v[2 * (3 * r + perm[p][r])] = re[ph[r]]; v[2 * (3 * r + perm[p][r]) + 1] = im[ph[r]]; }
  return v;
}
static void fill(int kind) {
  ++gen; vector<vector<int> > my = vt::mysites();
  for (int mu = 0; mu < Nd; ++mu) for (size_t i = 0; i < my.size(); ++i) { vt::dvec v = site(kind, vt::lexi(vt::tom(my[i]), Layout::lattSize()), mu, 0); vt::Src s(v); vt::unflat(u[mu].elem(i), s); }
}
static string uj() { string o = "["; for (int mu = 0; mu < Nd; ++mu) { if (mu) o += ','; o += vt::Ev::dvv(vt::flatl(u[mu])); } return o + "]"; }
static string content; static int cfs = 4; // of the file last written
static void slurp() { cfs = 4; content = ""; if (Layout::primaryNode()) { std::ifstream f(fname.c_str(), std::ios::binary); std::stringstream q; q << f.rdbuf(); content = q.str(); } QDPInternal::broadcast(content); }
static void spit(const string& s) { if (Layout::primaryNode()) { std::ofstream f(fname.c_str(), std::ios::binary); f.write(s.data(), s.size()); } int one = 1; QDPInternal::globalSum(one); content = s; }
static vt::dvec words(const string& s, size_t from, int fs) { vt::dvec o; for (size_t p = from; p + fs <= s.size(); p += fs) { unsigned long long x = 0; for (int i = 0; i < fs; ++i) x = x << 8 | (unsigned char)s[p + i]; if (fs == 4) { unsigned y = x; float f; memcpy(&f, &y, 4); o.push_back(f); } else { double d; memcpy(&d, &x, 8); o.push_back(d); } } return o; }
static string big(double v, int fs) { unsigned long long x = 0; if (fs == 4) { float f = v; unsigned y; memcpy(&y, &f, 4); x = y; } else memcpy(&x, &v, 8); string o; for (int i = fs - 1; i >= 0; --i) o += (char)(x >> (8 * i) & 255); return o; }
static void plus() { for (int mu = 0; mu < Nd; ++mu) for (int i = 0; i < Layout::sitesOnNode(); ++i) { vt::dvec v; vt::flat(u[mu].elem(i), v); for (double& x : v) x += 0.0; vt::Src s(v); vt::unflat(u[mu].elem(i), s); } } // no negative zeros
static long scaled(double x, double f) { double y = x * f, r = std::floor(y + 0.5); return std::fabs(y - r) < 0.05 ? (long)r : 2000000001L; }
static void hdr(vt::Ev& e, ArchivGauge_t& h) {
  e.v("nrow", vt::tov(h.nrow)).v("bc", vt::tov(h.boundary)).v("chk", half(h.checksum)).i("seq", h.sequence_number).s("id", h.ensemble_id).s("lab", h.ensemble_label).s("cre", h.creator).s("hw", h.creator_hardware).s("cd", h.creation_date).s("ad", h.archive_date)
   .i("plaq", scaled(toDouble(h.w_plaq), Layout::vol() * Nd * (Nd - 1) * Nc / 2)).i("link", scaled(toDouble(h.link), Layout::vol() * Nd * Nc)).i("mat", h.mat_size);
}
static string text(unsigned long long x, int n) { static const char* c = "abcXYZ019 =_/.-"; string s; for (int i = 0; i < n; ++i) { x = vt::hash64(x); s += c[x % (i == 0 || i == n - 1 ? 9 : 15)]; } return s; }
static void mkhdr(ArchivGauge_t& h, std::istream& ss) {
  unsigned long long z; int bc; ss >> z >> bc; h.sequence_number = z % 1000000; h.ensemble_id = text(z + 1, 1 + z % 30); h.ensemble_label = text(z + 2, z % 7 == 0 ? 0 : 1 + z % 60); h.creator = text(z + 3, 5); h.creator_hardware = text(z + 4, 20); h.creation_date = text(z + 5, 24); h.archive_date = text(z + 6, 24);
  for (int m = 0; m < Nd; ++m) h.boundary[m] = (bc >> m) & 1 ? -1 : 1;
}
static string lines(const string& s) { size_t k = s.find("END_HEADER\n"); return k == string::npos ? s : s.substr(0, k + 11); }
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L = vt::parsedims(vt::arg(argc, argv, "dims", "2,2,2,2").c_str()); Layout::setLattSize(L); Layout::create();
  fname = vt::arg(argc, argv, "file", "gauge.cfg"); u.resize(Nd); for (int m = 0; m < Nd; ++m) u[m] = zero;
  vt::Ev("lattice").v("dims", vt::tov(L)).lvv("sites", vt::mysites());
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  string line;
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; ss >> op;
    if (op == "u") { int k; ss >> k; fill(k); vt::Ev("u").lraw("u", uj()); }
    else if (op == "save") {       // an archive
      ArchivGauge_t h; int m; ss >> m; h.mat_size = m; string how; ss >> how; mkhdr(h, ss);
      if (how == "hdr") writeArchiv(h, u, fname);
      else if (how == "plain") { writeArchiv(u, fname); }
      else { h.checksum = 7; XMLBufferWriter w; write(w, "NERSC", h); writeArchiv(w, u, fname); }
      slurp(); string hd = lines(content); if (how == "plain") { h = ArchivGauge_t(); m = 12; }
      vt::Ev e("save"); e.s("how", how).i("mat", m).d("w", words(content, hd.size(), 4)); { size_t q = hd.find("CHECKSUM = "); e.v("hchk", half(q == string::npos ? 0 : strtoul(hd.c_str() + q + 11, 0, 16))); }
      std::istringstream t(hd); string l; string o = "["; bool f = true; while (std::getline(t, l)) { if (how == "plain" && (l.find("DATE") != string::npos || l.find("ENSEMBLE") == 0 || l.find("CREATOR") == 0)) continue; if (!f) o += ','; f = false; size_t q = l.find(" = "); o += q == string::npos ? "[" + vt::jstr(l) + "]" : "[" + vt::jstr(l.substr(0, q)) + "," + vt::jstr(l.substr(q + 3)) + "]"; } e.raw("hd", o + "]");
      if (how != "plain") hdr(e, h); else e.v("bc", vector<int>{1, 1, 1, 1});
    } else if (op == "load") {
      string how; ss >> how; fill(2); ArchivGauge_t h; if (how == "hdr") readArchiv(h, u, fname); else if (how == "plain") readArchiv(u, fname); else { XMLReader x; readArchiv(x, u, fname); read(x, "NERSC", h); } plus();
      vt::Ev e("load"); e.s("how", how); if (how != "plain") hdr(e, h); e.lraw("u", uj());
    } else if (op == "sum") { int m; ss >> m; unsigned c = computeChecksum(u, m); vt::Ev("sum").i("mat", m).v("chk", half(c)); }
    else if (op == "wlow") { int m; ss >> m; { BinaryFileWriter w(fname); writeArchiv(w, u, m); w.close(); } slurp(); vt::Ev("wlow").i("mat", m).d("w", words(content, 0, 4)); }
    else if (op == "rlow") { // the payload of a file of another origin
      int m, fs, k; ss >> m >> fs >> k; ++gen; string s; vt::dvec w;
      for (long g = 0; g < Layout::vol(); ++g) for (int mu = 0; mu < Nd; ++mu) { vt::dvec v = site(k, g, mu, 5); for (int i = 0; i < m; ++i) { s += big(v[i], fs); w.push_back(v[i]); } }
      spit(s); n_uint32_t c; { BinaryFileReader r(fname); readArchiv(r, u, c, m, fs); r.close(); } plus();
      vt::Ev("rlow").i("mat", m).i("fs", fs).d("w", w).v("chk", half(c)).lraw("u", uj());
    } else if (op == "recast") {   // rewrite the archive in another form: words of 8 bytes, three rows, other header order
      int m, fs, style; ss >> m >> fs >> style; string hd = lines(content), pay; vt::dvec w = words(content, hd.size(), cfs); cfs = fs; bool was18 = hd.find("4D_SU3_GAUGE_3x3") != string::npos; int n = was18 ? 18 : 12;
      unsigned sum = 0; vt::dvec ow;
      for (size_t l = 0; l * n < w.size(); ++l) {
        vt::dvec v(w.begin() + l * n, w.begin() + l * n + n);
        if (n == 12) for (int j = 0; j < 3; ++j) { int a = (j + 1) % 3, b = (j + 2) % 3; std::complex<double> x(v[2 * a], v[2 * a + 1]), y(v[6 + 2 * b], v[7 + 2 * b]), p(v[2 * b], v[2 * b + 1]), q(v[6 + 2 * a], v[7 + 2 * a]); std::complex<double> r = std::conj(x * y - p * q); v.push_back(r.real()); v.push_back(r.imag()); }
        for (int i = 0; i < m; ++i) { double x = v[i] == 0 ? 0.0 : v[i]; string b = big(x, fs); pay += b; ow.push_back(x); for (int q = 0; q < fs; q += 4) sum += (unsigned)(unsigned char)b[q] << 24 | (unsigned char)b[q + 1] << 16 | (unsigned char)b[q + 2] << 8 | (unsigned char)b[q + 3]; }
      }
      vector<string> ls; { std::istringstream t(hd); string l; while (std::getline(t, l)) ls.push_back(l); }
      char cb[40]; snprintf(cb, sizeof cb, style & 1 ? "CHECKSUM = %X" : "CHECKSUM =   %08x", sum); string o;
      vector<string> mid;
      for (string l : ls) { if (l == "BEGIN_HEADER" || l == "END_HEADER") continue; if (l.find("CHECKSUM") == 0) l = cb; if (l.find("DATATYPE") == 0) l = m == 18 ? "DATATYPE = 4D_SU3_GAUGE_3x3" : "DATATYPE = 4D_SU3_GAUGE"; if (l.find("FLOATING_POINT") == 0) l = fs == 8 ? "FLOATING_POINT = IEEE64BIG" : style & 2 ? "FLOATING_POINT = IEEE32" : "FLOATING_POINT = IEEE32BIG"; mid.push_back(l); }
      if (style & 4) std::reverse(mid.begin(), mid.end());
      o = "BEGIN_HEADER\n"; for (auto& l : mid) o += l + "\n"; o += "END_HEADER\n"; spit(o + pay);
      vt::Ev("recast").i("mat", m).i("fs", fs).i("style", style).d("w", ow);
    } else if (op == "damage") {   // one bit of the payload, a header value, or the size; the library must refuse
      int what; long z; ss >> what >> z; string s = content; size_t h = lines(s).size();
      if (what == 0) { size_t p = h + vt::hash64(z) % (s.size() - h); s[p] ^= 1 << (z % 8); }
      else if (what == 1) { size_t p = s.find("CHECKSUM = ") + 11; while (s[p] == ' ') ++p; s[p] = s[p] == '1' ? '2' : '1'; }
      else if (what == 2) { size_t p = s.find("PLAQUETTE = ") + 12; s.insert(p, z % 2 ? "1" : "0.5 "); if (z % 2 == 0) {} }
      else if (what == 3) { size_t p = s.find("LINK_TRACE = ") + 13; s.insert(p, z % 2 ? "3" : "0.77 "); }
      else if (what == 4) { int mu = z % 4; char k[20]; snprintf(k, sizeof k, "DIMENSION_%d = ", mu + 1); size_t p = s.find(k) + strlen(k); s.insert(p, "1"); }
      else s.resize(s.size() - 1 - z % 50);
      vt::Ev("damage").i("what", what); spit(s); ArchivGauge_t hd; readArchiv(hd, u, fname); vt::Ev("accepted");
    }
  }
  vt::Ev("end");
  QDP_finalize();
  return 0;
}
