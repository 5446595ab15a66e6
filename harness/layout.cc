// Dumps what the library says about its layout.  --dims=a,b,c,d --kind=lex|cb2|cb3d|cb32
#include "vtrace.h"
using namespace QDP;
using std::vector;
int main(int argc, char** argv) {
  QDP_initialize(&argc, &argv);
  vector<string> dims; { std::stringstream ss(vt::arg(argc, argv, "dims", "4,4,4,4")); string t; while (std::getline(ss, t, '/')) dims.push_back(t); }
  string kind = vt::arg(argc, argv, "kind", "cb2");
  for (auto& ds : dims) {
    multi1d<int> L = vt::parsedims(ds.c_str());
    vt::Ev("create").v("dims", vt::tov(L)).s("kind", kind).i("nodes", vt::nranks());
    Layout::setLattSize(L);
    Layout::create();
    int n = Layout::numNodes(), per = Layout::sitesOnNode(), V = Layout::vol();
    const multi1d<int>& lt = Layout::lattSize();
    vector<vector<int> > nodecoord; vector<int> nodenum;
    for (int r = 0; r < n; ++r) {
      multi1d<int> c = Layout::getLogicalCoordFrom(r);
      nodecoord.push_back(vt::tov(c)); nodenum.push_back(Layout::getNodeNumberFrom(c));
    }
    string site = "[";
    bool csame = true;
    for (int r = 0; r < n; ++r) {
      vector<vector<int> > s;
      for (int i = 0; i < per; ++i) {
        multi1d<int> x = Layout::siteCoords(r, i);
        s.push_back(vt::tov(x));
        int cc[Nd]; Layout::QDPXX_getSiteCoords(cc, r, i);
        for (int m = 0; m < Nd; ++m) if (cc[m] != x[m]) csame = false;
      }
      site += (r ? "," : "") + vt::Ev::vecvec(s);
    }
    site += "]";
    vector<vector<int> > where, cwhere, coordof; vector<int> lexlin;
    for (int g = 0; g < V; ++g) {
      multi1d<int> x(Nd); int cx[Nd]; int k = g;
      for (int m = 0; m < Nd; ++m) { x[m] = cx[m] = k % L[m]; k /= L[m]; }
      where.push_back({Layout::nodeNumber(x), Layout::linearSiteIndex(x)});
      cwhere.push_back({Layout::QDPXX_nodeNumber(cx), Layout::QDPXX_getLinearSiteIndex(cx)});
      coordof.push_back(vt::tov(Layout::nodeCoord(x)));
      lexlin.push_back(Layout::linearSiteIndex(g));
    }
    vector<vector<int> > loclex;
    for (int i = 0; i < per; ++i) loclex.push_back(vt::tov(Layout::localLexiCoordFromLinear(i)));
    vt::Ev("layout").v("latt", vt::tov(lt)).i("vol", V).i("nodes", n).v("logical", vt::tov(Layout::logicalSize()))
      .v("sub", vt::tov(Layout::subgridLattSize())).vv("nodecoord", nodecoord).v("nodenum", nodenum).raw("site", site)
      .vv("where", where).vv("cwhere", cwhere).b("csame", csame).v("lexlin", lexlin).vv("loclex", loclex).vv("coordof", coordof)
      .s("kind", kind)
      .li("me", Layout::nodeNumber()).lv("mycoord", vt::tov(Layout::nodeCoord())).li("sites", per).lb("primary", Layout::primaryNode());
  }
  QDP_finalize();
  return 0;
}
