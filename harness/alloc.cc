// C14: histories of fields, containers of fields and blocks of the lattice allocator
#include "qdp.h"
#include "vtrace.h"
#include "json.h"
#include <new>
#include <cstdint>
#include <cstring>
#include <memory>
#include <mutex>
#include <unistd.h>
using namespace QDP;
// all memory of the program: each block has a header with its size, and stays poisoned for a while after its release
struct Head { uint64_t magic; size_t size; Head *prev, *next; void* base; };
static const uint64_t LIVE = 0x11fe11fe11feull, DEAD = 0xdeaddeaddeadull;
static Head ring = {0, 0, &ring, &ring, 0}; static size_t live = 0, turn = 0; static int bad = 0;
static std::mutex door; static Head* grave[256]; static size_t graves = 0;
static void* give(size_t n) { size_t off = 64 + 16 * (turn++ % 7); char* b = (char*)aligned_alloc(16, (off + n + 16) / 16 * 16 + 16); if (!b) throw std::bad_alloc(); std::lock_guard<std::mutex> lock(door);
  Head* h = (Head*)(b + off) - 1; h->magic = LIVE; h->size = n; h->base = b; h->next = ring.next; h->prev = &ring; ring.next->prev = h; ring.next = h; live += n; memset(b + off, 0xA5, n); return b + off; }
static void take(void* p) { if (!p) return; std::lock_guard<std::mutex> lock(door); Head* h = (Head*)p - 1; if (h->magic != LIVE) { ++bad; return; }
  h->magic = DEAD; h->prev->next = h->next; h->next->prev = h->prev; live -= h->size; memset(p, 0xDB, h->size);
  Head*& g = grave[graves++ % 256]; if (g) { g->magic = 0; free(g->base); } g = h; }
void* operator new(size_t n) { return give(n); } void* operator new[](size_t n) { return give(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return give(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return give(n); }
void operator delete(void* p) noexcept { take(p); } void operator delete[](void* p) noexcept { take(p); }
void operator delete(void* p, size_t) noexcept { take(p); } void operator delete[](void* p, size_t) noexcept { take(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { take(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { take(p); }
static bool within(const void* p, size_t n) { for (Head* h = ring.next; h != &ring; h = h->next) { char* b = (char*)(h + 1); if (b <= (char*)p && (char*)p + n <= b + h->size) return true; } return false; }

static multi1d<Subset> subs; static const Subset& sub(int k) { return subs[k]; }
static string blocks; static bool first;
static void block(int s, int i, const void* p, size_t n, long long v) { uint64_t a = (uint64_t)p; blocks += (first ? "[" : ",[") + std::to_string(s) + "," + std::to_string(i) + "," + std::to_string(a >> 24) + "," + std::to_string(a & 0xffffff) + "," + std::to_string(n) + "," + std::to_string(v) + "," + (within(p, n) ? "1]" : "0]"); first = false; }
typedef WordType<LatticeReal>::Type_t W;
template<class T> static long long uniform(const T* p, size_t n) { for (size_t i = 1; i < n; ++i) if (p[i] != p[0]) return -1; double v = n ? p[0] : 0; return v == std::floor(v) && v >= 0 && v < 2e9 ? (long long)v : -1; }
struct Thing { virtual ~Thing() {} virtual void list(int s) = 0; virtual Thing* copy() = 0; virtual Thing* viaReturn() { return copy(); } virtual void assign(Thing*) {} virtual void swap(Thing*) {} virtual void set(int, int) {} };
// every number of the field is v
template<class F> static void fill(F& f, int v) { for (int i = 0; i < Layout::sitesOnNode(); ++i) { W* p = (W*)&f.elem(i); for (size_t k = 0; k < sizeof(f.elem(0)) / sizeof(W); ++k) p[k] = v; } }
template<class F> static void show(int s, int i, const F& f) { size_t n = sizeof(f.elem(0)) * Layout::sitesOnNode(); block(s, i, f.getF(), n, uniform((const W*)f.getF(), n / sizeof(W))); }
template<class F> static F same(F f) { return f; }
template<class F> struct Fld : Thing { F f; Fld() {} Fld(int v) { fill(f, v); } Fld(const F& g) : f(g) {}
  void list(int s) { show(s, 1, f); } Thing* copy() { return new Fld(*this); } Thing* viaReturn() { return new Fld(same(f)); }
  void assign(Thing* o) { f = ((Fld*)o)->f; } void swap(Thing* o) { std::swap(f, ((Fld*)o)->f); } void set(int, int v) { fill(f, v); } };
struct Arr : Thing { multi1d<LatticeReal> f; Arr(const multi1d<LatticeReal>& g) : f(g) {} Arr(int n) : f(n) { zero(); } void zero() { for (int i = 0; i < f.size(); ++i) fill(f[i], 0); }
  void list(int s) { for (int i = 0; i < f.size(); ++i) show(s, i + 1, f[i]); } Thing* copy() { return new Arr(*this); } Thing* viaReturn() { return new Arr(same(f)); }
  void assign(Thing* o) { f = ((Arr*)o)->f; } void swap(Thing* o) { std::swap(f, ((Arr*)o)->f); } void set(int i, int v) { fill(f[i - 1], v); } };
struct Mat : Thing { multi2d<LatticeReal> f; Mat(int n, int m) : f(n, m) { for (int i = 0; i < f.size2(); ++i) for (int j = 0; j < f.size1(); ++j) fill(f[i][j], 0); }
  void list(int s) { for (int i = 0; i < f.size2(); ++i) for (int j = 0; j < f.size1(); ++j) show(s, i * f.size1() + j + 1, f[i][j]); } Thing* copy() { return new Mat(*this); }
  void assign(Thing* o) { f = ((Mat*)o)->f; } void set(int i, int v) { fill(f[(i - 1) / f.size1()][(i - 1) % f.size1()], v); } };
struct Vec : Thing { vector<LatticeReal> f; Vec(const vector<LatticeReal>& g) : f(g) {} Vec(int n) : f(n) { zero(); } void zero() { for (auto& x : f) fill(x, 0); }
  void list(int s) { for (size_t i = 0; i < f.size(); ++i) show(s, i + 1, f[i]); } Thing* copy() { return new Vec(*this); } Thing* viaReturn() { return new Vec(same(f)); }
  void assign(Thing* o) { f = ((Vec*)o)->f; } void swap(Thing* o) { std::swap(f, ((Vec*)o)->f); } void set(int i, int v) { fill(f[i - 1], v); } };
typedef std::remove_reference<decltype(std::declval<LatticeReal>().elem(0))>::type RT;
struct Sub : Thing { OSubLattice<RT> f; Sub(LatticeReal& g, int k) : f(sub(k), g) {}
  size_t n() { return f.subset().numSiteTable(); }
  void list(int s) { block(s, 1, f.getF(), n() * sizeof(W), uniform((const W*)f.getF(), n())); } Thing* copy() { return new Sub(*this); }
  void set(int, int v) { for (size_t i = 0; i < n(); ++i) ((W*)f.getF())[i] = v; } };
static Allocator::QDPDefaultAllocator& heap() { return Allocator::theQDPAllocator::Instance(); }
struct Raw : Thing { unsigned char* p; size_t n; Raw(size_t n_, int v) : n(n_) { p = (unsigned char*)heap().allocate(n, v & 1 ? Allocator::DEFAULT : Allocator::FAST); set(1, v); }
  ~Raw() { heap().free(p); } Thing* copy() { return 0; } void list(int s) { block(s, 1, p, n, uniform(p, n)); } void set(int, int v) { memset(p, v, n); } };
template<class F> static F sum(const F& a, const F& b) { F c; c = a + b; return c; }
template<class F> static F next(F a) { LatticeReal one = Real(1); for (int i = 0; i < Layout::sitesOnNode(); ++i) { W* p = (W*)&a.elem(i); for (size_t k = 0; k < sizeof(a.elem(0)) / sizeof(W); ++k) p[k] += 1; } return a; }
static Thing* T[16]; static string ty[16]; static int lat;
#define BY(t, X) (t == "R" ? X(LatticeReal) : t == "C" ? X(LatticeComplex) : t == "M" ? X(LatticeColorMatrix) : X(LatticeDiracFermion))
static void lattice(int k) { static const int L[3][4] = {{2, 2, 2, 2}, {4, 2, 2, 2}, {2, 2, 4, 6}}; { multi1d<int> n(Nd); for (int m = 0; m < Nd; ++m) n[m] = L[k][m]; Layout::setLattSize(n); Layout::create(); } lat = k; }
struct Third : SetFunc { int operator()(const multi1d<int>& x) const { return x[0] == 0 && x[1] == 0 ? 0 : 1; } int numSubsets() const { return 2; } };
static Set thirds;
static void setup() { thirds.make(Third()); subs.resize(4); subs[0] = all; subs[1] = even; subs[2] = odd; subs[3] = thirds[0];
  vector<int> n; for (int k = 0; k < 4; ++k) n.push_back(sub(k).numSiteTable()); vt::Ev e("setup"); e.raw("sites", vt::Ev::vec(n)); e.raw("align", std::to_string(QDP_ALIGNMENT_SIZE)); e.raw("word", std::to_string(sizeof(W))); e.raw("lat", std::to_string(lat)); }
static void drop(int s) { delete T[s]; T[s] = 0; }
static void op(const J& j) { const string& o = j[0].s; int s = j.size() > 1 ? j[1].i() : 0;
  if (o == "new") { ty[s] = j[2].s; int v = j[3].i();
#define X(F) (Thing*)new Fld<F>(v)
    T[s] = BY(ty[s], X);
#undef X
  } else if (o == "raw") T[s] = new Raw(j[2].n, j[3].i()); else if (o == "arr") T[s] = new Arr(j[2].i()); else if (o == "vec") T[s] = new Vec(j[2].i()); else if (o == "mat") T[s] = new Mat(j[2].i(), j[3].i());
  else if (o == "copy") { T[s] = T[j[2].i()]->copy(); ty[s] = ty[j[2].i()]; } else if (o == "ret") { T[s] = T[j[2].i()]->viaReturn(); ty[s] = ty[j[2].i()]; }
  else if (o == "assign") T[s]->assign(T[j[2].i()]); else if (o == "swap") T[s]->swap(T[j[2].i()]);
  else if (o == "byval") { Thing* q = T[j[2].i()];
#define X(F) (((Fld<F>*)T[s])->f = next(((Fld<F>*)q)->f), 0)
    BY(ty[s], X);
#undef X
  } else if (o == "conv") { LatticeComplex c(cmplx(((Fld<LatticeReal>*)T[j[2].i()])->f, ((Fld<LatticeReal>*)T[j[2].i()])->f)); T[s] = new Fld<LatticeComplex>(c); ty[s] = "C"; }
  else if (o == "expr") { int a = j[2].i(), b = j[3].i(); ty[s] = ty[a];
#define X(F) (Thing*)new Fld<F>(sum(((Fld<F>*)T[a])->f, ((Fld<F>*)T[b])->f))
    T[s] = BY(ty[s], X);
#undef X
  } else if (o == "add") { int a = j[2].i(), b = j[3].i();
#define X(F) (((Fld<F>*)T[s])->f = ((Fld<F>*)T[a])->f + ((Fld<F>*)T[b])->f, 0)
    BY(ty[s], X);
#undef X
  } else if (o == "set") T[s]->set(j[2].i(), j[3].i());
  else if (o == "resize") { if (Arr* a = dynamic_cast<Arr*>(T[s])) { a->f.resize(j[2].i()); a->zero(); } else { Vec* v = (Vec*)T[s]; v->f.resize(j[2].i()); v->zero(); } }
  else if (o == "push") { Vec* v = (Vec*)T[s]; v->f.push_back(LatticeReal(Real(j[2].i()))); } else if (o == "pop") ((Vec*)T[s])->f.pop_back(); else if (o == "erase") { Vec* v = (Vec*)T[s]; v->f.erase(v->f.begin() + j[2].i() - 1); }
  else if (o == "sub") { T[s] = new Sub(((Fld<LatticeReal>*)T[j[2].i()])->f, j[3].i()); ty[s] = "R"; } else if (o == "subset") { Sub* u = (Sub*)T[s]; u->f.setSubset(sub(j[2].i())); u->set(1, j[3].i()); }
  else if (o == "free" || o == "del") drop(s);
  else if (o == "clear" || o == "lattice") { for (int i = 0; i < 16; ++i) drop(i); if (o == "lattice") lattice(s); }
  else { fprintf(stderr, "what is %s\n", o.c_str()); exit(96); } }
int main(int argc, char** argv) { Script s(vt::arg(argc, argv, "script", "")); QDP_initialize(&argc, &argv); vt::open(); lattice(0); setup();
  for (auto& x : s.ops) { const J& j = x.first;
    if (j[0].s == "bad") { { vt::Ev e("try"); e.raw("op", x.second); } fflush(0); char here[64]; void* p = heap().allocate(100, Allocator::DEFAULT);
      if (j[1].s == "twice") heap().free(p); else if (j[1].s == "inside") p = (char*)p + QDP_ALIGNMENT_SIZE; else p = here; heap().free(p);
      { vt::Ev e("survived"); } fflush(0); _exit(0); }
    op(j); blocks = "["; first = true; for (int i = 0; i < 16; ++i) if (T[i]) T[i]->list(i);
    blocks += "]"; string b = blocks; string().swap(blocks); long long now = live;   // b is short when nothing is left
    { vt::Ev e("op"); e.raw("op", x.second); e.raw("blk", b); e.raw("bad", std::to_string(bad)); if (j[0].s == "clear") e.raw("live", std::to_string(now)); }
    if (j[0].s == "lattice") setup(); }
  fflush(0); QDP_finalize(); return 0; }
