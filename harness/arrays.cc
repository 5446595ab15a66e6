// Multi-dimensional arrays: replays a history of array operations on multi1d .. multi5d, multiNd
// and the 1-based arrays, and logs everything that can be seen after each operation.
#include "vtrace.h"
#include "qdp_arrays.h"
#include <memory>
#include <fstream>
using namespace QDP;
using vt::Ev;
typedef vector<long long> iv;

// an element type that counts its objects
struct Tr {
  static long live;
  double v; Tr() : v(-77) { ++live; } Tr(const Tr& t) : v(t.v) { ++live; } Tr(double d) : v(d) { ++live; }
  ~Tr() { --live; v = -88; }
  Tr& operator=(const Tr& t) { v = t.v; return *this; }
  Tr& operator+=(const Tr& t) { v += t.v; return *this; } Tr& operator-=(const Tr& t) { v -= t.v; return *this; }
  Tr& operator*=(const Tr& t) { v *= t.v; return *this; } Tr& operator/=(const Tr& t) { v /= t.v; return *this; }
};
long Tr::live = 0;
inline bool operator==(const Tr& a, const Tr& b) { return a.v == b.v; } inline bool operator!=(const Tr& a, const Tr& b) { return a.v != b.v; }
inline bool operator<(const Tr& a, const Tr& b) { return a.v < b.v; } inline bool operator>(const Tr& a, const Tr& b) { return a.v > b.v; }
inline Tr operator*(const Tr& a, const Tr& b) { return Tr(a.v * b.v); } inline Tr operator/(const Tr& a, const Tr& b) { return Tr(a.v / b.v); } inline Tr operator-(const Tr& a) { return Tr(-a.v); }
template<class T> T mk(long long v) { return T((double)v); }
template<> int mk<int>(long long v) { return (int)v; }
inline double val(int v) { return v; } inline double val(double v) { return v; } inline double val(const Tr& v) { return v.v; } inline double val(const Real& v) { return toDouble(v); }

template<class T> struct Box { virtual ~Box() {}
  virtual iv dims() const = 0; virtual vector<double> vals() const = 0; virtual iv sizes() const = 0;
  virtual T& call(const iv& i) = 0; virtual T* chain(const iv&) { return 0; } virtual T* row(const iv&) { return 0; } virtual T* elem(long long) { return 0; } virtual T* packed(const iv&) { return 0; }
  virtual void resize(const iv& n) = 0; virtual void scal(const T& v) = 0; virtual Box* copy() const = 0; virtual void asg(const Box& q) = 0;
  virtual bool rowscal(int, const T&) { return false; } virtual const T* slice(const iv&) const { return 0; } virtual Box* rowview(int) { return 0; }
  char kind; };
template<class A, class F> void each(const iv& n, A& a, F f) { long long m = n.empty() ? 0 : 1; for (auto x : n) m *= x;
  for (long long k = 0; k < m; ++k) { iv i(n.size()); long long r = k; for (int d = (int)n.size() - 1; d >= 0; --d) { i[d] = r % n[d]; r /= n[d]; } f(a, i); } }


template<class T> T& el(multi1d<T>& a, const iv& i) { return a(i[0]); }
template<class T> T& el(multi2d<T>& a, const iv& i) { return a(i[0], i[1]); }
template<class T> T& el(multi3d<T>& a, const iv& i) { return a(i[0], i[1], i[2]); }
template<class T> T& el(multi4d<T>& a, const iv& i) { return a(i[0], i[1], i[2], i[3]); }
template<class T> T& el(multi5d<T>& a, const iv& i) { return a(i[0], i[1], i[2], i[3], i[4]); }
template<class T> const T& el(const multi1d<T>& a, const iv& i) { return a(i[0]); }
template<class T> const T& el(const multi2d<T>& a, const iv& i) { return a(i[0], i[1]); }
template<class T> const T& el(const multi3d<T>& a, const iv& i) { return a(i[0], i[1], i[2]); }
template<class T> const T& el(const multi4d<T>& a, const iv& i) { return a(i[0], i[1], i[2], i[3]); }
template<class T> const T& el(const multi5d<T>& a, const iv& i) { return a(i[0], i[1], i[2], i[3], i[4]); }
template<class T> T* ch(multi1d<T>& a, const iv& i) { return &a[i[0]]; }
template<class T> T* ch(multi2d<T>& a, const iv& i) { return &a[i[0]][i[1]]; }
template<class T> T* ch(multi3d<T>& a, const iv& i) { return &a[i[0]][i[1]][i[2]]; }
template<class T> T* ch(multi4d<T>& a, const iv& i) { return &a[i[0]][i[1]][i[2]][i[3]]; }
template<class T> T* ch(multi5d<T>& a, const iv& i) { return &a[i[0]][i[1]][i[2]][i[3]][i[4]]; }
// the same element by way of a constant array, so that those accessors are used too
template<class T> const T& cel(const multi1d<T>& a, const iv& i) { return a[i[0]]; }
template<class T> const T& cel(const multi2d<T>& a, const iv& i) { return a[i[0]][i[1]]; }
template<class T> const T& cel(const multi3d<T>& a, const iv& i) { return a[i[0]][i[1]][i[2]]; }
template<class T> const T& cel(const multi4d<T>& a, const iv& i) { return a[i[0]][i[1]][i[2]][i[3]]; }
template<class T> const T& cel(const multi5d<T>& a, const iv& i) { return a[i[0]][i[1]][i[2]][i[3]][i[4]]; }
template<class T> T* rw(multi1d<T>& a, const iv&) { return 0; }
template<class T> T* rw(multi2d<T>& a, const iv& i) { multi1d<T> r(a[i[0]]); return &r(i[1]); }
template<class T> T* rw(multi3d<T>& a, const iv& i) { multi2d<T> r(a[i[0]]); return &r(i[1], i[2]); }
template<class T> T* rw(multi4d<T>& a, const iv& i) { multi3d<T> r(a[i[0]]); return &r(i[1], i[2], i[3]); }
template<class T> T* rw(multi5d<T>& a, const iv& i) { multi4d<T> r(a[i[0]]); return &r(i[1], i[2], i[3], i[4]); }
template<class T> iv sz(const multi1d<T>& a) { return iv{a.size(), a.size1()}; }
template<class T> iv sz(const multi2d<T>& a) { return iv{a.size1(), a.size2(), a.nrows(), a.ncols()}; }
template<class T> iv sz(const multi3d<T>& a) { return iv{a.size1(), a.size2(), a.size3(), a.leftSize(), a.middleSize(), a.rightSize()}; }
template<class T> iv sz(const multi4d<T>& a) { return iv{a.size1(), a.size2(), a.size3(), a.size4()}; }
template<class T> iv sz(const multi5d<T>& a) { return iv{a.size1(), a.size2(), a.size3(), a.size4(), a.size5()}; }
template<class T> iv dm(const multi1d<T>& a) { return iv{a.size()}; }
template<class T> iv dm(const multi2d<T>& a) { return iv{a.size2(), a.size1()}; }
template<class T> iv dm(const multi3d<T>& a) { return iv{a.size3(), a.size2(), a.size1()}; }
template<class T> iv dm(const multi4d<T>& a) { return iv{a.size4(), a.size3(), a.size2(), a.size1()}; }
template<class T> iv dm(const multi5d<T>& a) { return iv{a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; }
template<class T> void rs(multi1d<T>& a, const iv& n) { a.resize(n[0]); }
template<class T> void rs(multi2d<T>& a, const iv& n) { a.resize(n[0], n[1]); }
template<class T> void rs(multi3d<T>& a, const iv& n) { a.resize(n[0], n[1], n[2]); }
template<class T> void rs(multi4d<T>& a, const iv& n) { a.resize(n[0], n[1], n[2], n[3]); }
template<class T> void rs(multi5d<T>& a, const iv& n) { a.resize(n[0], n[1], n[2], n[3], n[4]); }
template<class T> const T* sl(const multi1d<T>& a, const iv& i) { return a.slice(); }
template<class T> const T* sl(const multi2d<T>& a, const iv& i) { return a.slice(i[0]); }
template<class T> const T* sl(const multi3d<T>& a, const iv& i) { return a.slice(i[0], i[1]); }
template<class T> const T* sl(const multi4d<T>& a, const iv& i) { return a.slice(i[0], i[1], i[2]); }
template<class T> const T* sl(const multi5d<T>& a, const iv& i) { return a.slice(i[0], i[1], i[2], i[3]); }
template<class T> T& el(multiNd<T>& a, const iv& i) { switch (i.size()) { case 1: return a(i[0]); case 2: return a(i[0], i[1]); case 3: return a(i[0], i[1], i[2]); default: return a(i[0], i[1], i[2], i[3]); } }
template<class T> const T& el(const multiNd<T>& a, const iv& i) { switch (i.size()) { case 1: return a(i[0]); case 2: return a(i[0], i[1]); case 3: return a(i[0], i[1], i[2]); default: return a(i[0], i[1], i[2], i[3]); } }
inline multi1d<int> mi(const iv& n) { multi1d<int> m(n.size()); for (size_t k = 0; k < n.size(); ++k) m[k] = n[k]; return m; }
// 1-based arrays
template<class T> T& el(Array1dO<T>& a, const iv& i) { return a[i[0] + 1]; }
template<class T> T& el(Array2dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1); }
template<class T> T& el(Array3dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1); }
template<class T> T& el(Array4dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1); }
template<class T> T& el(Array5dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1, i[4] + 1); }
template<class T> const T& el(const Array1dO<T>& a, const iv& i) { return a[i[0] + 1]; }
template<class T> const T& el(const Array2dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1); }
template<class T> const T& el(const Array3dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1); }
template<class T> const T& el(const Array4dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1); }
template<class T> const T& el(const Array5dO<T>& a, const iv& i) { return a(i[0] + 1, i[1] + 1, i[2] + 1, i[3] + 1, i[4] + 1); }
template<class T> const T& cel(const Array1dO<T>& a, const iv& i) { return a.ref()[i[0]]; }
template<class T> const T& cel(const Array2dO<T>& a, const iv& i) { return a.ref()(i[0], i[1]); }
template<class T> const T& cel(const Array3dO<T>& a, const iv& i) { return a.ref()(i[0], i[1], i[2]); }
template<class T> const T& cel(const Array4dO<T>& a, const iv& i) { return a.ref()(i[0], i[1], i[2], i[3]); }
template<class T> const T& cel(const Array5dO<T>& a, const iv& i) { return a.ref()(i[0], i[1], i[2], i[3], i[4]); }
template<class T> iv sz(const Array1dO<T>& a) { return iv{a.size()}; }
template<class T> iv sz(const Array2dO<T>& a) { return iv{a.size(), a.size1(), a.size2(), a.nrows(), a.ncols()}; }
template<class T> iv sz(const Array3dO<T>& a) { return iv{a.size(), a.size1(), a.size2(), a.size3(), a.leftSize(), a.middleSize(), a.rightSize()}; }
template<class T> iv sz(const Array4dO<T>& a) { return iv{a.size(), a.size1(), a.size2(), a.size3(), a.size4()}; }
template<class T> iv sz(const Array5dO<T>& a) { return iv{a.size(), a.size1(), a.size2(), a.size3(), a.size4(), a.size5()}; }
template<class T> iv dm(const Array1dO<T>& a) { return iv{a.size()}; }
template<class T> iv dm(const Array2dO<T>& a) { return iv{a.size2(), a.size1()}; }
template<class T> iv dm(const Array3dO<T>& a) { return iv{a.size3(), a.size2(), a.size1()}; }
template<class T> iv dm(const Array4dO<T>& a) { return iv{a.size4(), a.size3(), a.size2(), a.size1()}; }
template<class T> iv dm(const Array5dO<T>& a) { return iv{a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; }
static bool same(const iv& n) { for (auto x : n) if (x != n[0]) return false; return true; }
template<class T> void rs(Array1dO<T>& a, const iv& n) { a.resize(n[0]); }
template<class T> void rs(Array2dO<T>& a, const iv& n) { if (same(n)) a.resize(n[0]); else a.resize(n[0], n[1]); }
template<class T> void rs(Array3dO<T>& a, const iv& n) { if (same(n)) a.resize(n[0]); else a.resize(n[0], n[1], n[2]); }
template<class T> void rs(Array4dO<T>& a, const iv& n) { if (same(n)) a.resize(n[0]); else a.resize(n[0], n[1], n[2], n[3]); }
template<class T> void rs(Array5dO<T>& a, const iv& n) { if (same(n)) a.resize(n[0]); else a.resize(n[0], n[1], n[2], n[3], n[4]); }

template<class T, class A> struct BoxBase : Box<T> { A a;
  template<class... P> BoxBase(P&&... p) : a(std::forward<P>(p)...) {} };
// multi1d .. multi5d.  F makes an array in place, so that a row view stays a view.
template<class T, template<class> class M> struct MBox : Box<T> { std::unique_ptr<M<T>> p; M<T>& a;
  MBox(M<T>* m, char k) : p(m), a(*m) { this->kind = k; }
  iv dims() const override { return dm(a); } iv sizes() const override { return sz(a); }
  vector<double> vals() const override { vector<double> v; const M<T>& c = a; each(dims(), c, [&](const M<T>& x, const iv& i) { double u = val(el(x, i)); v.push_back(u); if (val(cel(x, i)) != u) v.push_back(123456789); }); return v; }
  T& call(const iv& i) override { return el(a, i); }
  void resize(const iv& n) override { rs(a, n); } void asg(const Box<T>& q) override { a = static_cast<const MBox&>(q).a; }
  Box<T>* copy() const override { return new MBox(new M<T>(a), this->kind == 'v' ? 'm' : this->kind); }
  void scal(const T& v) override { scal1(a, v); }
  template<class X> static void scal1(X& x, const T& v) { x = v; } static void scal1(Array1dO<T>&, const T&) {}
  T* chain(const iv& i) override { return chain1(a, i); } template<class X> static T* chain1(X& x, const iv& i) { return ch(x, i); }
  static T* chain1(Array1dO<T>&, const iv&) { return 0; } static T* chain1(Array2dO<T>&, const iv&) { return 0; } static T* chain1(Array3dO<T>&, const iv&) { return 0; } static T* chain1(Array4dO<T>&, const iv&) { return 0; } static T* chain1(Array5dO<T>&, const iv&) { return 0; }
  T* row(const iv& i) override { return row1(a, i); } template<class X> static T* row1(X& x, const iv& i) { return rw(x, i); }
  static T* row1(Array1dO<T>&, const iv&) { return 0; } static T* row1(Array2dO<T>&, const iv&) { return 0; } static T* row1(Array3dO<T>&, const iv&) { return 0; } static T* row1(Array4dO<T>&, const iv&) { return 0; } static T* row1(Array5dO<T>&, const iv&) { return 0; }
  bool rowscal(int j, const T& v) override { return rowscal1(a, j, v); } template<class X> static bool rowscal1(X& x, int j, const T& v) { x[j] = v; return true; }
  static bool rowscal1(multi1d<T>&, int, const T&) { return false; }
  static bool rowscal1(Array1dO<T>&, int, const T&) { return false; } static bool rowscal1(Array2dO<T>&, int, const T&) { return false; } static bool rowscal1(Array3dO<T>&, int, const T&) { return false; } static bool rowscal1(Array4dO<T>&, int, const T&) { return false; } static bool rowscal1(Array5dO<T>&, int, const T&) { return false; }
  const T* slice(const iv& i) const override { return slice1(a, i); } template<class X> static const T* slice1(const X& x, const iv& i) { return sl(x, i); }
  static const T* slice1(const Array1dO<T>&, const iv&) { return 0; } static const T* slice1(const Array2dO<T>&, const iv&) { return 0; } static const T* slice1(const Array3dO<T>&, const iv&) { return 0; } static const T* slice1(const Array4dO<T>&, const iv&) { return 0; } static const T* slice1(const Array5dO<T>&, const iv&) { return 0; }
  Box<T>* rowview(int j) override { return rv(a, j); } template<class X> static Box<T>* rv(X&, int) { return 0; }
  static Box<T>* rv(multi2d<T>& x, int j) { return new MBox<T, multi1d>(new multi1d<T>(x[j]), 'v'); } static Box<T>* rv(multi3d<T>& x, int j) { return new MBox<T, multi2d>(new multi2d<T>(x[j]), 'v'); }
  static Box<T>* rv(multi4d<T>& x, int j) { return new MBox<T, multi3d>(new multi3d<T>(x[j]), 'v'); } static Box<T>* rv(multi5d<T>& x, int j) { return new MBox<T, multi4d>(new multi4d<T>(x[j]), 'v'); }
};
template<class T> struct NBox : Box<T> { multiNd<T> a;
  NBox() { this->kind = 'N'; } explicit NBox(const iv& n) : a(mi(n)) { this->kind = 'N'; } explicit NBox(const multiNd<T>& b) : a(b) { this->kind = 'N'; }
  iv dims() const override { iv n; for (int k = 0; k < a.size().size(); ++k) n.push_back(a.size(k)); return n; }
  iv sizes() const override { iv n = dims(); n.push_back(a.size().size()); n.push_back(a.numElem()); return n; }
  vector<double> vals() const override { vector<double> v; const multiNd<T>& c = a; int k = 0; each(dims(), c, [&](const multiNd<T>& x, const iv& i) { double u = val(x[mi(i)]); v.push_back(u);
     if (i.size() < 5 && val(el(x, i)) != u) v.push_back(123456789); if (val(x.getElem(k++)) != u) v.push_back(987654321); }); return v; }
  T& call(const iv& i) override { return i.size() > 4 ? a[mi(i)] : el(a, i); }
  T* packed(const iv& i) override { return &a[mi(i)]; } T* elem(long long k) override { return &a.getElem(k); }
  void resize(const iv& n) override { a.resize(mi(n)); } void scal(const T& v) override { a = v; } void asg(const Box<T>& q) override { a = static_cast<const NBox&>(q).a; }
  Box<T>* copy() const override { return new NBox(a); } };

static iv nums(const string& s) { iv v; if (s == "-") return v; std::stringstream ss(s); string x; while (std::getline(ss, x, '.')) v.push_back(atoll(x.c_str())); return v; }

template<class T> struct Run {
  enum { Slots = 8, Foreign = 2 }; Box<T>* s[Slots + 1]; vector<T> mem[Foreign]; long base;
  Run(int fsize) { for (auto& p : s) p = 0; for (int b = 0; b < Foreign; ++b) for (int i = 0; i < fsize; ++i) mem[b].push_back(mk<T>(100 * (b + 1) + i + 1)); base = Tr::live; }
  Box<T>* make(char k, const iv& n) {
    if (k == 'N') return new NBox<T>(n);
    if (k == 'm') switch (n.size()) { case 1: return new MBox<T, multi1d>(new multi1d<T>(n[0]), k); case 2: return new MBox<T, multi2d>(new multi2d<T>(n[0], n[1]), k); case 3: return new MBox<T, multi3d>(new multi3d<T>(n[0], n[1], n[2]), k);
      case 4: return new MBox<T, multi4d>(new multi4d<T>(n[0], n[1], n[2], n[3]), k); default: return new MBox<T, multi5d>(new multi5d<T>(n[0], n[1], n[2], n[3], n[4]), k); }
    bool q = same(n);
    switch (n.size()) { case 1: return new MBox<T, Array1dO>(new Array1dO<T>(n[0]), k); case 2: return new MBox<T, Array2dO>(q ? new Array2dO<T>(n[0]) : new Array2dO<T>(n[0], n[1]), k);
      case 3: return new MBox<T, Array3dO>(q ? new Array3dO<T>(n[0]) : new Array3dO<T>(n[0], n[1], n[2]), k); case 4: return new MBox<T, Array4dO>(q ? new Array4dO<T>(n[0]) : new Array4dO<T>(n[0], n[1], n[2], n[3]), k);
      default: return new MBox<T, Array5dO>(q ? new Array5dO<T>(n[0]) : new Array5dO<T>(n[0], n[1], n[2], n[3], n[4]), k); } }
  Box<T>* def(char k, int d) {
    if (k == 'N') return new NBox<T>();
    if (k == 'm') switch (d) { case 1: return new MBox<T, multi1d>(new multi1d<T>, k); case 2: return new MBox<T, multi2d>(new multi2d<T>, k); case 3: return new MBox<T, multi3d>(new multi3d<T>, k); case 4: return new MBox<T, multi4d>(new multi4d<T>, k); default: return new MBox<T, multi5d>(new multi5d<T>, k); }
    switch (d) { case 1: return new MBox<T, Array1dO>(new Array1dO<T>, k); case 2: return new MBox<T, Array2dO>(new Array2dO<T>, k); case 3: return new MBox<T, Array3dO>(new Array3dO<T>, k); case 4: return new MBox<T, Array4dO>(new Array4dO<T>, k); default: return new MBox<T, Array5dO>(new Array5dO<T>, k); } }
  Box<T>* place(T* f, const iv& n) { switch (n.size()) { case 1: return new MBox<T, multi1d>(new multi1d<T>(f, n[0]), 'v'); case 2: return new MBox<T, multi2d>(new multi2d<T>(f, n[0], n[1]), 'v'); case 3: return new MBox<T, multi3d>(new multi3d<T>(f, n[0], n[1], n[2]), 'v');
      case 4: return new MBox<T, multi4d>(new multi4d<T>(f, n[0], n[1], n[2], n[3]), 'v'); default: return new MBox<T, multi5d>(new multi5d<T>(f, n[0], n[1], n[2], n[3], n[4]), 'v'); } }
  multi1d<T>& m1(int k) { return static_cast<MBox<T, multi1d>*>(s[k])->a; }
  multi2d<T>& m2(int k) { return static_cast<MBox<T, multi2d>*>(s[k])->a; }
  Array1dO<T>& o1(int k) { return static_cast<MBox<T, Array1dO>*>(s[k])->a; }
  void fill(Box<T>* b, long long f, long long g) { long long k = 0; each(b->dims(), *b, [&](Box<T>& x, const iv& i) { x.call(i) = mk<T>(f + g * k++); }); }
  Box<T>* own(multi1d<T>* m) { return new MBox<T, multi1d>(m, 'm'); }
  void op(const vector<string>& t, const string& js) {
    const string& o = t[0]; vector<double> ret; auto N = [&](int i) { return atoll(t[i].c_str()); }; auto I = [&](int i) { return (int)N(i); };
    if (o == "new") { s[I(1)] = make(t[2][0], nums(t[3])); fill(s[I(1)], N(4), N(5)); }
    else if (o == "def") s[I(1)] = def(t[2][0], I(3));
    else if (o == "del") { delete s[I(1)]; s[I(1)] = 0; }
    else if (o == "copyc") s[I(1)] = s[I(2)]->copy();
    else if (o == "asg") s[I(1)]->asg(*s[I(2)]);
    else if (o == "scal") s[I(1)]->scal(mk<T>(N(2)));
    else if (o == "set") { iv i = nums(t[3]); Box<T>* b = s[I(1)]; T v = mk<T>(N(4)); const string& p = t[2];
      if (p == "call") b->call(i) = v; else if (p == "chain") *b->chain(i) = v; else if (p == "row") *b->row(i) = v; else if (p == "packed") *b->packed(i) = v;
      else { iv n = b->dims(); long long k = 0; for (size_t d = 0; d < n.size(); ++d) k = k * n[d] + i[d]; *b->elem(k) = v; } }
    else if (o == "resize") { s[I(1)]->resize(nums(t[2])); fill(s[I(1)], N(3), N(4)); }
    else if (o == "vres") { int n0 = o1(I(1)).size(); o1(I(1)).resize(I(2)); for (int k = n0; k < I(2); ++k) { if (val(o1(I(1))[k + 1]) == -77) o1(I(1))[k + 1] = mk<T>(0); if (std::is_same<T, Real>::value) o1(I(1))[k + 1] = mk<T>(0); } }
    else if (o == "opa") { multi1d<T>& a = m1(I(1)); multi1d<T>& b = m1(I(3)); switch (t[2][0]) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; } }
    else if (o == "ops") { multi1d<T>& a = m1(I(1)); T v = mk<T>(N(3)); switch (t[2][0]) { case '+': a += v; break; case '-': a -= v; break; case '*': a *= v; break; default: a /= v; } }
    else if (o == "bin") { const multi1d<T>& a = m1(I(3)); const multi1d<T>& b = m1(I(4)); switch (t[2][0]) { case '+': s[I(1)] = own(new multi1d<T>(a + b)); break; case '-': s[I(1)] = own(new multi1d<T>(a - b)); break; case '*': s[I(1)] = own(new multi1d<T>(a * b)); break; default: s[I(1)] = own(new multi1d<T>(a / b)); } }
    else if (o == "bins") { const multi1d<T>& a = m1(I(3)); T b = mk<T>(N(4)); switch (t[2][0]) { case '+': s[I(1)] = own(new multi1d<T>(a + b)); break; case '-': s[I(1)] = own(new multi1d<T>(a - b)); break; case '*': s[I(1)] = own(new multi1d<T>(a * b)); break; default: s[I(1)] = own(new multi1d<T>(a / b)); } }
    else if (o == "sbin") { T a = mk<T>(N(3)); const multi1d<T>& b = m1(I(4)); switch (t[2][0]) { case '+': s[I(1)] = own(new multi1d<T>(a + b)); break; case '-': s[I(1)] = own(new multi1d<T>(a - b)); break; case '*': s[I(1)] = own(new multi1d<T>(a * b)); break; default: s[I(1)] = own(new multi1d<T>(a / b)); } }
    else if (o == "cmp") cmp(m1(I(1)), m1(I(2)), ret);
    else if (o == "concat") s[I(1)] = own(new multi1d<T>(concat(m1(I(2)), m1(I(3)))));
    else if (o == "carr") { iv v = nums(t[2]); vector<T> x; for (auto y : v) x.push_back(mk<T>(y)); x.push_back(mk<T>(0)); const T* q = x.data(); m1(I(1)) = q; }
    else if (o == "place") s[I(1)] = place(mem[I(3) - Slots - 1].data() + I(4), nums(t[2]));
    else if (o == "row") s[I(1)] = s[I(2)]->rowview(I(3));
    else if (o == "rowscal") s[I(1)]->rowscal(I(2), mk<T>(N(3)));
    else if (o == "rowasg") m2(I(1))[I(2)] = m1(I(3));
    else if (o == "slice") { const T* p = s[I(1)]->slice(nums(t[2])); iv n = s[I(1)]->dims(); for (long long k = 0; k < n.back(); ++k) ret.push_back(val(p[k])); }
    else if (o == "push") o1(I(1)).push_back(mk<T>(N(2)));
    else if (o == "ofm") s[I(1)] = new MBox<T, Array1dO>(new Array1dO<T>(m1(I(2))), 'o');
    else if (o == "ofv") { vector<T> x; for (auto y : nums(t[2])) x.push_back(mk<T>(y)); s[I(1)] = new MBox<T, Array1dO>(new Array1dO<T>(x), 'o'); }
    else if (o == "neg") s[I(1)] = new MBox<T, Array1dO>(new Array1dO<T>(-o1(I(2))), 'o');
    else if (o == "smul") s[I(1)] = new MBox<T, Array1dO>(new Array1dO<T>(mk<T>(N(2)) * o1(I(3))), 'o');
    else if (o == "divs") s[I(1)] = new MBox<T, Array1dO>(new Array1dO<T>(o1(I(2)) / mk<T>(N(3))), 'o');
    else if (o == "norm2") nrm(m1(I(1)), ret);
    else if (o == "fun") fun(t, (T*)0);
    else if (o == "sizes") { for (auto x : s[I(1)]->sizes()) ret.push_back(x); }
    else if (o == "foreign") mem[I(1) - Slots - 1][I(2)] = mk<T>(N(3));
    else { fprintf(stderr, "what is %s\n", o.c_str()); exit(96); }
    string st = "["; bool first = true;
    for (int k = 1; k <= Slots; ++k) if (s[k]) { if (!first) st += ','; first = false; st += "[" + std::to_string(k) + ",\"" + string(1, s[k]->kind) + "\"," + Ev::vec(s[k]->dims()) + "," + Ev::dv(s[k]->vals()) + "]"; }
    st += "]"; string mm = "["; for (int b = 0; b < Foreign; ++b) { vector<double> v; for (auto& x : mem[b]) v.push_back(val(x)); mm += (b ? "," : "") + Ev::dv(v); } mm += "]";
    Ev e("op"); e.raw("op", js); e.raw("st", st); e.raw("mem", mm); e.raw("ret", Ev::dv(ret)); e.i("live", std::is_same<T, Tr>::value ? Tr::live - base : -1); }
  void cmp(const multi1d<T>& a, const multi1d<T>& b, vector<double>& r) { cmp1(a, b, r); }
  template<class X> static void cmp1(const multi1d<X>& a, const multi1d<X>& b, vector<double>& r) { r = {double(a == b), double(a != b), double(a < b), double(a > b), double(a <= b), double(a >= b)}; }
  static void cmp1(const multi1d<Real>&, const multi1d<Real>&, vector<double>&) {}
  template<class X> static void nrm(const multi1d<X>&, vector<double>&) {}
  static void nrm(const multi1d<int>& a, vector<double>& r) { r.push_back(QDP::norm2(a)); } static void nrm(const multi1d<double>& a, vector<double>& r) { r.push_back(QDP::norm2(a)); }
  template<class X> void fun(const vector<string>&, X*) {}
  void fun(const vector<string>& t, Real*) { iv v = nums(t[3]); multi1d<Real> a(v.size()); for (size_t k = 0; k < v.size(); ++k) a[k] = mk<Real>(v[k]); const string& f = t[2]; int d = atoi(t[1].c_str());
#define F1(g) if (f == #g) s[d] = (Box<T>*)new MBox<Real, multi1d>(new multi1d<Real>(QDP::g(a)), 'm');
    F1(sqrt) F1(log) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) }
  ~Run() { for (auto p : s) delete p; }
};
template<class T> void go(const string& path, int fsize) { Run<T> r(fsize); std::ifstream f(path); string ln;
  while (std::getline(f, ln)) { size_t tab = ln.find('\t'); std::stringstream ss(ln.substr(0, tab)); vector<string> t; string x; while (ss >> x) t.push_back(x); r.op(t, ln.substr(tab + 1)); } }
int main(int argc, char** argv) { QDP_initialize(&argc, &argv); vt::open(); string ty = vt::arg(argc, argv, "type", "int"), sp = vt::arg(argc, argv, "script", ""); int fs = atoi(vt::arg(argc, argv, "fsize", "40").c_str());
  if (ty == "int") go<int>(sp, fs); else if (ty == "double") go<double>(sp, fs); else if (ty == "real") go<Real>(sp, fs); else go<Tr>(sp, fs); return 0; }
