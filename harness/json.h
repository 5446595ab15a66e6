// reading scripts: one JSON array per line, made of integers, strings and arrays
#ifndef VJSON_H
#define VJSON_H
#include <string>
#include <vector>
#include <fstream>
#include <cstdlib>
struct J {
  long long n = 0; std::string s; std::vector<J> a; bool list = false;
  const J& operator[](size_t i) const { return a.at(i); }
  size_t size() const { return a.size(); }
  int i() const { return (int)n; }
  std::vector<long long> ints() const { std::vector<long long> v; for (auto& x : a) v.push_back(x.n); return v; }
  std::string bytes() const { std::string v; for (auto& x : a) v += (char)x.n; return v; }
  static J parse(const char*& p) {
    J j; while (*p == ' ' || *p == ',') ++p;
    if (*p == '[') { j.list = true; ++p; while (true) { while (*p == ' ' || *p == ',') ++p; if (*p == ']' || !*p) break; j.a.push_back(parse(p)); } if (*p) ++p; }
    else if (*p == '"') { ++p; while (*p && *p != '"') { if (*p == '\\') ++p; j.s += *p++; } if (*p) ++p; }
    else { char* e; j.n = strtoll(p, &e, 10); if (e == p) exit(95); p = e; }
    return j; }
  std::string text() const { if (list) { std::string o = "["; for (size_t k = 0; k < a.size(); ++k) o += (k ? "," : "") + a[k].text(); return o + "]"; } return s.empty() ? std::to_string(n) : "\"" + s + "\""; }
};
struct Script { std::vector<std::pair<J, std::string> > ops;
  explicit Script(const std::string& path) { std::ifstream f(path); std::string ln; while (std::getline(f, ln)) if (!ln.empty()) { const char* p = ln.c_str(); ops.push_back({J::parse(p), ln}); } } };
#endif
