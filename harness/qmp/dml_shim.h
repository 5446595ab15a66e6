/* declared by QIO and by the XML layer, whose submodules are not available here */
#ifdef __cplusplus
#include <cstddef>
#include <string>
#include <list>
#include <vector>
#include <utility>
#define VERIF_HAVE_XMLWRITER 1
extern "C" int DML_route_bytes(char* buf, size_t size, int fromnode, int tonode);
namespace XMLWriterAPI {
struct Attribute { template <class T> Attribute(const std::string&, const T&) {} };
typedef std::list<Attribute> AttributeList;
}
namespace QDPUtil { typedef unsigned int n_uint32_t; }
namespace QDP {
using QDPUtil::n_uint32_t;
struct XMLWriter {
  std::vector<std::pair<std::string, std::string> > v; std::vector<std::string> at; std::vector<int> elems;
  std::string path(const std::string& n) const { std::string s; for (auto& x : at) s += x + "/"; return s + n; }
  std::string str() const { return ""; }
  void openTag(const std::string&) {}
  void openTag(const std::string&, XMLWriterAPI::AttributeList&) {}
  void closeTag() {}
};
}
#endif
