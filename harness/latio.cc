// Replays histories of lattice file operations.  --dims --script --file
#include "pool.h"
#include "qdp_disk_map_slice.h"
#include <fstream>
#include <memory>
static string fname, content;
static Pool* P; static int gen = 0;
struct Stream {
  std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryFileWriter> fw; std::unique_ptr<BinaryFileReaderWriter> frw; std::unique_ptr<BinaryBufferReader> br; std::unique_ptr<BinaryBufferWriter> bw;
  BinaryReader* r() { return fr ? (BinaryReader*)fr.get() : frw ? (BinaryReader*)frw.get() : (BinaryReader*)br.get(); }
  BinaryWriter* w() { return fw ? (BinaryWriter*)fw.get() : frw ? (BinaryWriter*)frw.get() : (BinaryWriter*)bw.get(); }
  long pos() { return fr ? (long)fr->currentPosition() : fw ? (long)fw->currentPosition() : frw ? (long)frw->currentPosition() : br ? (long)br->currentPosition() : (long)bw->currentPosition(); }
  bool fail() { return fr ? fr->fail() : fw ? fw->fail() : frw ? frw->fail() : br ? br->fail() : bw->fail(); }
  unsigned crc() { return fr ? fr->getChecksum() : fw ? fw->getChecksum() : frw ? frw->getChecksum() : br ? br->getChecksum() : bw->getChecksum(); }
  void close() { if (fr) fr->close(); if (fw) fw->close(); if (frw) frw->close(); fr.reset(); fw.reset(); frw.reset(); br.reset(); bw.reset(); }
} S;
static vector<char> kinds;            // the kind of every word of the file, as the operations imply it
static vector<std::pair<size_t, int> > arrays; // where an array's count stands, and the count
static size_t rpos = 0;
static vector<int> rawcrc(unsigned c) { return {int(c >> 16), int(c & 65535)}; }
static vector<int> bytes(const string& s) { vector<int> o; if (s.size() <= 3000) for (unsigned char c : s) o.push_back(c); return o; }
static int wsize(char k) { return k == 'd' ? 8 : k == 'b' ? 1 : 4; }
static vt::dvec words() {
  vt::dvec o; size_t p = 0;
  for (char k : kinds) {
    int n = wsize(k); if (p + n > content.size()) break;
    unsigned long long u = 0; for (int i = 0; i < n; ++i) u = u << 8 | (unsigned char)content[p + i]; p += n;
    if (k == 'f') { unsigned x = u; float f; memcpy(&f, &x, 4); o.push_back(f); } else if (k == 'd') { double d; memcpy(&d, &u, 8); o.push_back(d); } else if (k == 'b') o.push_back(u); else o.push_back((int)(unsigned)u);
  }
  return o;
}
struct Base { virtual ~Base() {} virtual void fill() = 0; virtual void op(bool wr, const string& k, std::istream& ss) = 0; };
template<class W> char kindOf() { return std::is_same<W, double>::value ? 'd' : std::is_same<W, float>::value ? 'f' : std::is_same<W, bool>::value ? 'b' : 'i'; }
template<class T> struct Fields : Base {
  typedef OLattice<T> X; typedef typename WordType<T>::Type_t W; X f[3];
  static int n() { return sizeof(T) / sizeof(W); }
  void fill() {
    ++gen;
    for (int id = 0; id < 3; ++id) {
      vector<vector<int> > my = vt::mysites();
      for (size_t i = 0; i < my.size(); ++i) {
        long g = vt::lexi(vt::tom(my[i]), Layout::lattSize()); vt::dvec v;
        for (int k = 0; k < n(); ++k) { long long h = vt::hash64(((gen * 4 + id) * 100003LL + g) * 1009 + k); v.push_back(kindOf<W>() == 'b' ? (h & 1) : h % 1000000); }
        vt::Src s(v); vt::unflat(f[id].elem(i), s);
      }
      vt::Ev("field").i("id", id + 1).ldd("v", vt::flatl(f[id]));
    }
  }
  void op(bool wr, const string& k, std::istream& ss) {
    int id = 1, a = 0, b = 0; multi1d<int> L = Layout::lattSize(), x(Nd); x = 0;
    if (k == "array") ss >> a; else { ss >> id; }
    --id;
    long V = Layout::vol(); size_t cnt = V; int nk = a; string how = k; size_t at = wr ? kinds.size() : rpos;
    if (!wr) { // at an array only an array can be read, elsewhere none
      int here = -1; for (auto& p : arrays) if (p.first == at) here = p.second;
      if (here >= 0) { how = "array"; nk = here; } else if (how == "array") how = "all";
    }
    if (how == "site") for (int m = 0; m < Nd; ++m) { int c = 0; ss >> c; x[m] = c % L[m]; cnt = 1; }
    int i0 = 0, i1 = 0;
    if (how == "slice") { ss >> a >> b; int rows = V / L[0]; i0 = a % rows; i1 = i0 + 1 + b % (rows - i0); i0 *= L[0]; i1 *= L[0]; cnt = i1 - i0; }
    if (how == "time") { ss >> a; a %= L[Nd - 1]; cnt = V / L[Nd - 1]; }
    if (how == "sub") {
      ss >> a;
#ifdef ARCH_PARSCALAR
      if (a % 14 == 0) how = "all"; else { a %= 14; cnt = 0; for (int m : P->mask[a]) cnt += m; }
#else
      how = "all";
#endif
    }
    size_t nw = how == "array" ? 1 + nk * V * n() : cnt * n();
    if (!wr) {
      if (at + nw > kinds.size()) return;
      for (size_t i = at; i < at + nw; ++i) for (auto& p : arrays) if (p.first == i && !(how == "array" && i == at)) return;
    }
    multi1d<X> arr; vector<int> ids;
    if (wr) {
      BinaryWriter& o = *S.w(); const X& c = f[id];
      if (how == "all") { write(o, c); }
      else if (how == "site") write(o, c, x);
      else if (how == "slice") LatticeTimeSliceIO::writeSlice(o, f[id], i0, i1);
      else if (how == "time") { TimeSliceIO<X> t(f[id], 0); t.setTimeSlice(a); write(o, t); }
#ifdef ARCH_PARSCALAR
      else if (how == "sub") writeOLattice(o, (const char*)&f[id].elem(0), sizeof(W), n(), *P->sub[a]);
#endif
      else { arr.resize(nk); for (int i = 0; i < nk; ++i) { arr[i] = f[i]; ids.push_back(i + 1); } write(o, arr); arrays.push_back({kinds.size(), nk}); kinds.push_back('i'); --nw; }
      kinds.insert(kinds.end(), nw, kindOf<W>());
    } else {
      BinaryReader& o = *S.r();
      if (how == "all") read(o, f[id]);
      else if (how == "site") read(o, f[id], x);
      else if (how == "slice") LatticeTimeSliceIO::readSlice(o, f[id], i0, i1);
      else if (how == "time") { TimeSliceIO<X> t(f[id], a); read(o, t); }
#ifdef ARCH_PARSCALAR
      else if (how == "sub") readOLattice(o, (char*)&f[id].elem(0), sizeof(W), n(), *P->sub[a]);
#endif
      else { read(o, arr); for (int i = 0; i < nk; ++i) { ids.push_back(i + 1); if (i < arr.size()) f[i] = arr[i]; } }
      rpos += nw;
    }
    vt::Ev e(wr ? "wlat" : "rlat"); e.s("op", how).i("fail", S.fail()).i("n", n());
    if (how == "array") e.v("ids", ids); else e.i("id", id + 1);
    if (how == "site") e.v("x", vt::tov(x)); if (how == "slice") e.i("a", i0).i("b", i1); if (how == "time") e.i("a", a); if (how == "sub") e.i("a", a + 1);
    if (wr) { e.i("bytes", S.pos()).i("width", sizeof(W)); return; }
    e.i("got", how == "array" ? arr.size() : 0).i("bytes", S.pos());
    if (how != "array") { e.ldd("v", vt::flatl(f[id])); return; }
    string o = "["; for (size_t i = 0; i < ids.size(); ++i) { if (i) o += ','; o += vt::Ev::dvv(vt::flatl(f[i])); } e.lraw("vs", o + "]");
  }
};
#define TYPES(D) D("R", LatticeReal) D("RD", LatticeRealD) D("I", LatticeInteger) D("B", LatticeBoolean) D("C", LatticeComplex) D("V", LatticeColorVector) D("M", LatticeColorMatrix) D("F", LatticeFermion) D("S", LatticeSpinMatrix) D("MD", LatticeColorMatrixD) D("H", LatticeHalfFermion)
template<class T> Base* mk(const OLattice<T>*) { return new Fields<T>; }
static void tofile() { if (Layout::primaryNode()) { std::ofstream f(fname.c_str(), std::ios::binary); f.write(content.data(), content.size()); } QDPInternal::globalSum(gen); gen /= Layout::numNodes(); }
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  multi1d<int> L = vt::parsedims(vt::arg(argc, argv, "dims", "4,4,2,2").c_str()); Layout::setLattSize(L); Layout::create();
  fname = vt::arg(argc, argv, "file", "lat.bin"); P = new Pool; P->make();
  vt::Ev("lattice").v("dims", vt::tov(L)).vv("subs", P->mask).lvv("sites", vt::mysites());
  std::ifstream sc(vt::arg(argc, argv, "script", "script").c_str());
  string line; Base* F = 0;
  while (std::getline(sc, line)) {
    std::stringstream ss(line); string op; ss >> op;
    if (op == "wopen") {
      string t, k; ss >> t >> k; delete F; F = 0;
#define D(N, X) if (t == N) F = mk((X*)0);
      TYPES(D)
      F->fill(); kinds.clear(); arrays.clear(); vt::Ev("wopen").s("k", k);
      if (k == "file") S.fw.reset(new BinaryFileWriter(fname)); else if (k == "buf") S.bw.reset(new BinaryBufferWriter); else S.frw.reset(new BinaryFileReaderWriter(fname, std::ios_base::in | std::ios_base::out | std::ios_base::trunc));
    } else if (op == "wclose") {
      unsigned c = S.crc(); bool b = !!S.bw; if (b) content = S.bw->str(); S.close();
      if (!b) { content = ""; if (Layout::primaryNode()) { std::ifstream f(fname.c_str(), std::ios::binary); std::stringstream q; q << f.rdbuf(); content = q.str(); } QDPInternal::broadcast(content); }
      vt::Ev("wclose").d("w", words()).i("size", content.size()).v("raw", bytes(content)).v("crc", rawcrc(c));
    } else if (op == "ropen") {
      string k; int x; ss >> k >> x; if (x) F->fill(); rpos = 0; vt::Ev("ropen").s("k", k);
      if (k != "buf") tofile();
      if (k == "file") S.fr.reset(new BinaryFileReader(fname)); else if (k == "buf") S.br.reset(new BinaryBufferReader(content)); else S.frw.reset(new BinaryFileReaderWriter(fname));
    } else if (op == "rclose") {
      unsigned c = S.crc(); size_t n = S.pos(); S.close(); vt::Ev("rclose").v("raw", bytes(content.substr(0, n))).v("crc", rawcrc(c));
    } else if (op == "w" || op == "r") { string k; ss >> k; F->op(op == "w", k, ss); }
  }
  vt::Ev("end");
  QDP_finalize();
  return 0;
}
