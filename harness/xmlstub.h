// The environment has no XML library, without which the classes the archive and map headers are
// declared in terms of do not exist.  A stand-in: a list of names and texts.
#ifndef XMLSTUB_H
#define XMLSTUB_H
#include "qdp.h"
#include <sstream>
#include <vector>
#include <string>
namespace QDP {
using QDPUtil::n_uint32_t;
// paths such as map/elem[2]/Key
class XMLReader { public: std::vector<std::pair<std::string, std::string> > v; XMLReader() {} template<class W> explicit XMLReader(const W& w) : v(w.v) {} template<class W> void open(const W& w) { v = w.v; } void close() {}
  XMLReader(const XMLReader& x) : v(x.v) {}
  XMLReader(const XMLReader& x, const std::string& s) { std::string q = (s[0] == '/' ? s.substr(1) : s) + "/"; for (auto& p : x.v) if (p.first.compare(0, q.size(), q) == 0) v.push_back(std::make_pair(p.first.substr(q.size()), p.second)); if (v.empty()) v = x.v; }
  int count(const std::string& n) const { int c = 0; while (true) { std::string q = n + "[" + std::to_string(c + 1) + "]/"; bool any = false; for (auto& p : v) if (p.first.compare(0, q.size(), q) == 0) any = true; if (!any) return c; ++c; } }
  std::string get(const std::string& n) const { for (auto& p : v) if (p.first == n) return p.second; throw std::string("no " + n); } };
#ifndef VERIF_HAVE_XMLWRITER
class XMLWriter { public: std::vector<std::pair<std::string, std::string> > v; std::vector<std::string> at; std::vector<int> elems; std::string str() const { return ""; }
  std::string path(const std::string& n) const { std::string s; for (auto& x : at) s += x + "/"; return s + n; } };
#endif
class XMLBufferWriter : public XMLWriter {};
inline void push(XMLWriter& w, const std::string& n) { if (n == "elem") { if (w.elems.empty()) w.elems.push_back(0); w.at.push_back("elem[" + std::to_string(++w.elems.back()) + "]"); } else { w.at.push_back(n); w.elems.push_back(0); } }
inline void pop(XMLWriter& w) { if (w.at.back().compare(0, 5, "elem[") != 0) w.elems.pop_back(); w.at.pop_back(); }

template<class T> inline std::string xmltext(const T& x) { std::ostringstream s; s.precision(17); s << x; return s.str(); }
inline std::string xmltext(const multi1d<int>& x) { std::ostringstream s; for (int i = 0; i < x.size(); ++i) s << (i ? " " : "") << x[i]; return s.str(); }
inline std::string xmltext(const std::string& x) { return x; }
template<class T> inline std::string xmltext(const OScalar<T>& x) { return xmltext(toDouble(x)); }
template<class T> inline void write(XMLWriter& w, const std::string& n, const T& x) { w.v.push_back(std::make_pair(w.path(n), xmltext(x))); }
template<class T> inline void xmlparse(const std::string& s, T& x) { std::istringstream i(s); i >> x; }
inline void xmlparse(const std::string& s, std::string& x) { x = s; }
inline void xmlparse(const std::string& s, multi1d<int>& x) { std::istringstream i(s); std::vector<int> v; int k; while (i >> k) v.push_back(k); x.resize(v.size()); for (size_t j = 0; j < v.size(); ++j) x[j] = v[j]; }
template<class T> inline void xmlparse(const std::string& s, OScalar<T>& x) { double d = 0; std::istringstream i(s); i >> d; x = d; }
template<class T> inline void read(XMLReader& r, const std::string& n, T& x) { xmlparse(r.get(n), x); }
}
#endif
