// Engine that replays histories of data-parallel statements and logs them.
#ifndef FIELDS_H
#define FIELDS_H
#include "vtrace.h"
#include <map>
#include <functional>
using namespace QDP;
#include "fieldtypes.h"
#define GAMC(n) GammaConst<Ns, n>()

// shape of an element type: spin rank, spin size, colour rank, colour size, complex
template<class T> struct Shape { static void get(int*) {} };
template<class T> struct Shape<RScalar<T> > { static void get(int* s) { s[4] = 0; } };
template<class T> struct Shape<RComplex<T> > { static void get(int* s) { s[4] = 1; } };
template<class T> struct Shape<PScalar<T> > { static void get(int* s) { Shape<T>::get(s); } };
template<class T, int N> struct Shape<PSpinVector<T, N> > { static void get(int* s) { s[0] = 1; s[1] = N; Shape<T>::get(s); } };
template<class T, int N> struct Shape<PSpinMatrix<T, N> > { static void get(int* s) { s[0] = 2; s[1] = N; Shape<T>::get(s); } };
template<class T, int N> struct Shape<PColorVector<T, N> > { static void get(int* s) { s[2] = 1; s[3] = N; Shape<T>::get(s); } };
template<class T, int N> struct Shape<PColorMatrix<T, N> > { static void get(int* s) { s[2] = 2; s[3] = N; Shape<T>::get(s); } };
template<class T> struct Shape<OLattice<T> > { static void get(int* s) { Shape<T>::get(s); } };
template<class T> struct Shape<OScalar<T> > { static void get(int* s) { Shape<T>::get(s); } };

const int NREG = 4;
template<class TT> typename TT::type*& slot(int i) { static typename TT::type* r[NREG + 1] = {0}; return r[i]; }
template<class TT> typename TT::type& reg(int i) { typename TT::type*& p = slot<TT>(i); if (!p) p = new typename TT::type; return *p; }

struct Ctx;
struct Tracked { string name; std::function<string()> bytes; string saved; };
std::vector<Tracked>& tracked();
struct TypeInfo { std::function<void(int, int, unsigned long long)> fill; };
std::map<string, TypeInfo>& types();

template<class T> string bytesof(const OLattice<T>& f) { string o; for (int i = 0; i < Layout::sitesOnNode(); ++i) o.append((const char*)&f.elem(i), sizeof(T)); return o; }
template<class T> string bytesof(const OScalar<T>& f) { return string((const char*)&f.elem(), sizeof(T)); }
vector<vector<int> > coordsof(const Subset& s);  // coordinates of this node's sites in the subset, in table order
struct Ctx {
  int ix[5]; const Subset* s; vt::Ev* ev; multi1d<int> site; const Set* set; int setid;
  template<class T> void out(const OLattice<T>& f) { ev->ldd("v", vt::flatl(f)); }
  template<class T> void out(const OScalar<T>& f) { ev->d("val", vt::flatv(f)); }
  template<class T> void res(Ctx&, const OScalar<T>& f) { ev->d("val", vt::flatv(f)); }
  void res(Ctx&, bool f) { ev->d("val", vt::dvec(1, f ? 1 : 0)); }
  template<class T> void resmulti(const multi1d<OScalar<T> >& f, const vector<vector<int> >& masks) {
    vector<vt::dvec> v; for (int i = 0; i < f.size(); ++i) v.push_back(vt::flatv(f[i]));
    ev->dd("vals", v).vv("set", masks);
  }
  // row j of the result of a sum of several fields over several subsets
  template<class T> multi1d<OScalar<T> > row(const multi2d<OScalar<T> >& f, int j) { multi1d<OScalar<T> > r(f.size1()); for (int i = 0; i < f.size1(); ++i) r[i] = f(j, i); return r; }
  // bulk extraction: which entries of the array were written, and with what
  template<class T> void xtract(const OLattice<T>& A, const Subset& s) {
    int n = Layout::sitesOnNode(); multi1d<OScalar<T> > q(n);
    for (int i = 0; i < n; ++i) memset((void*)&q[i].elem(), 0x5A, sizeof(T));
    QDP_extract(q, A, s);
    vector<vt::dvec> v; vector<vector<int> > w; string mark(sizeof(T), 0x5A);
    for (int i = 0; i < n; ++i) if (string((const char*)&q[i].elem(), sizeof(T)) != mark) {
      v.push_back(vt::flatv(q[i])); w.push_back(vt::tov(Layout::siteCoords(Layout::nodeNumber(), i)));
    }
    ev->ldd("x", v).lvv("xs", w);
  }
  // every entry of the array differs from the destination; only those of the subset may be taken
  template<class T> void insert(OLattice<T>& D, const OLattice<T>& A, const Subset& s) {
    int n = Layout::sitesOnNode(); multi1d<OScalar<T> > q(n);
    for (int i = 0; i < n; ++i) q[i].elem() = A.elem(i);
    QDP_insert(D, q, s);
  }
  // a field stored on its subset only
  template<class T> void owned(const OSubLattice<T>& q) {
    vector<vt::dvec> v; int n = q.subset().numSiteTable();
    for (int i = 0; i < n; ++i) { OScalar<T> x; x.elem() = q.getF()[i]; v.push_back(vt::flatv(x)); }
    ev->ldd("x", v).lvv("xs", coordsof(q.subset()));
  }
  template<class V> void extract(const V& data, const vector<vector<int> >& where) {
    vector<vt::dvec> v; for (int i = 0; i < data.size(); ++i) v.push_back(vt::flatv(data[i]));
    ev->ldd("x", v).lvv("xs", where);
  }
};
struct Reg { Reg(int id, const char* kind, void (*fn)(Ctx&), const char* types); };

// the pool of user sets (colour functions of the global site)
struct PoolFun : public SetFunc {
  int id; explicit PoolFun(int i) : id(i) {}
  int operator()(const multi1d<int>& x) const;
  int numSubsets() const;
};
extern Set* poolset[8];
vector<vector<int> > setmasks(int id);           // per colour: 0/1 per global site

template<class TT> typename std::enable_if<true, void>::type fillreg(const string& name, int i, int bound, unsigned long long seed);
template<class T> void fillval(OLattice<T>& f, int bound, int lo, unsigned long long seed, size_t len) {
  const multi1d<int>& L = Layout::lattSize();
  for (int k = 0; k < Layout::sitesOnNode(); ++k) {
    long g = vt::lexi(Layout::siteCoords(Layout::nodeNumber(), k), L);
    vt::dvec v(len);
    for (size_t c = 0; c < len; ++c) v[c] = lo + (long)(vt::hash64(seed + 7919 * g + 1000003ULL * c) % (bound - lo + 1));
    vt::Src s(v); vt::unflat(f.elem(k), s);
  }
}
template<class T> void fillval(OScalar<T>& f, int bound, int lo, unsigned long long seed, size_t len) {
  vt::dvec v(len);
  for (size_t c = 0; c < len; ++c) v[c] = lo + (long)(vt::hash64(seed + 1000003ULL * c) % (bound - lo + 1));
  vt::Src s(v); vt::unflat(f.elem(), s);
}
template<class T> struct IsLat { static const bool v = false; };
template<class T> struct IsLat<OLattice<T> > { static const bool v = true; };
template<class T> void logval(vt::Ev& e, const OLattice<T>& f) { e.ldd("v", vt::flatl(f)); }
template<class T> void logval(vt::Ev& e, const OScalar<T>& f) { e.d("val", vt::flatv(f)); }

template<class TT> void addtype(const string& name) {
  typedef typename TT::type X;
  int sh[5] = {0, 1, 0, 1, 0}; Shape<X>::get(sh);
  size_t len = (sh[0] == 0 ? 1 : sh[0] == 1 ? sh[1] : sh[1] * sh[1]) * (sh[2] == 0 ? 1 : sh[2] == 1 ? sh[3] : sh[3] * sh[3]) * (sh[4] + 1);
  vector<int> shape(sh, sh + 5);
  bool uns = name == "B" || name == "b", pos = name == "U" || name == "u";
  TypeInfo ti;
  ti.fill = [=](int i, int bound, unsigned long long seed) {
    X& f = reg<TT>(i);
    fillval(f, bound, uns ? 0 : pos ? 1 : -bound, seed, len);
    vt::Ev e("fill"); e.s("reg", name + std::to_string(i)).b("lat", IsLat<X>::v).v("t", shape); logval(e, f);
  };
  types()[name] = ti;
  for (int i = 1; i < NREG; ++i) {
    X& f = reg<TT>(i); fillval(f, 1, uns ? 0 : pos ? 1 : -1, 17, len);
    tracked().push_back({name + std::to_string(i), [&f]() { return bytesof(f); }, ""});
  }
}
void registry();
#ifdef HAVE_MAPS
// permutation maps as the user defines them; source site of each destination site
extern Map umap[6]; extern ArrayMap amap; extern BiDirectionalMap bmap; extern ArrayBiDirectionalMap abmap;
void makemaps(vector<vector<int> >& tables);
#endif
#endif
