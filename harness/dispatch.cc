// C19: the shares that dispatch_to_threads hands out
#include "qdp.h"
#include "vtrace.h"
#include "json.h"
#include <mutex>
#include <atomic>
#include <sched.h>
using namespace QDP;
struct Share { int low, high, id; bool same; };
struct Book { std::mutex m; vector<Share> s; vector<std::atomic<int> >* mark; };
struct Args { Book* b; int n; double check; };
static void work(int low, int high, int id, Args* a) { bool same = a->check == a->n + 0.5; { std::lock_guard<std::mutex> g(a->b->m); a->b->s.push_back({low, high, id, same}); }
  if (a->b->mark) for (int i = low; i < high; ++i) { (*a->b->mark)[i]++; if (i % 7 == id % 7) sched_yield(); } }
static string text(const vector<Share>& s) { string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + vt::Ev::vec(vector<long long>{s[i].low, s[i].high, s[i].id, s[i].same}); return o + "]"; }
int main(int argc, char** argv) { Script s(vt::arg(argc, argv, "script", "")); QDP_initialize(&argc, &argv); vt::open();
  for (auto& x : s.ops) { int k = x.first[0].i(), n = x.first[1].i(), kind = x.first[2].i(); int teams = 1, team = 1;
#ifdef QDP_USE_OMP_THREADS
    omp_set_dynamic(kind == 3); omp_set_num_threads(k); team = k; if (kind == 1) { teams = 2; team = 1; }
#endif
    vector<Book> b(teams); vector<std::atomic<int> > mark(n <= 5000 ? n * teams : 0); for (auto& m : mark) m = 0; vector<vector<std::atomic<int> > > marks;
    for (int q = 0; q < teams; ++q) { marks.emplace_back(n <= 5000 ? n : 0); for (auto& m : marks[q]) m = 0; } for (int q = 0; q < teams; ++q) b[q].mark = n <= 5000 ? &marks[q] : 0;
    auto one = [&](int q) { Args a = {&b[q], n, n + 0.5}; dispatch_to_threads(n, a, work); };
#ifdef QDP_USE_OMP_THREADS
    if (kind == 1) {
#pragma omp parallel num_threads(2)
      { one(omp_get_thread_num()); if (omp_get_num_threads() == 1) one(1); }
    } else
#endif
    one(0);
    string g = "["; long long once = 0; for (int q = 0; q < teams; ++q) { g += (q ? "," : "") + text(b[q].s); for (auto& m : marks[q]) once += m == 1; }
    { vt::Ev e("call"); e.raw("n", std::to_string(n)); e.raw("team", std::to_string(team)); e.raw("kind", std::to_string(kind)); e.raw("got", g + "]"); }
    if (n <= 5000) { vt::Ev e("sum"); e.raw("n", std::to_string(n * teams)); e.raw("once", std::to_string(once)); } }
  fflush(0); QDP_finalize(); return 0; }
