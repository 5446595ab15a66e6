#include "qmp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <vector>

enum { MAXR = 16 };
static const size_t CAP = 1u << 20, SLOT = 8u << 20;

struct Chan { uint64_t nsent, nrecv, nposted, head, tail; char buf[CAP]; };
struct Shared {
  pthread_mutex_t mu; pthread_cond_t cv;
  uint64_t progress; int nranks; int aborted; int deadlock; int why;
  int finished[MAXR]; int blocked[MAXR]; uint64_t blockedat[MAXR];
  // collectives
  uint64_t gen; int arrived; char kind[MAXR]; uint64_t len[MAXR]; int mismatch;
  int left;
};
static Shared* S; static Chan* C; static char* slots;
static int forced[8], nforced = 0;
static int me = 0, nr = 1; static bool inited = false;
static int ldims[8], ldim_n = 0; static bool declared = false; static int lcoord[8];
static FILE* lg = 0; static unsigned jit = 0, jseed = 1; static bool rendez = false; static int maporder = 0; static int ictype = 0;
static long nopen_mem = 0, nopen_hnd = 0, nopen_buf = 0;

static Chan& ch(int s, int d) { return C[s * nr + d]; }
static void jitter() { if (!jit) return; jseed = jseed * 1103515245u + 12345u; unsigned r = (jseed >> 8); if ((r & 3) == 0) usleep((r >> 2) % jit); else if ((r & 3) == 1) sched_yield(); }
static unsigned hsh(const void* p, size_t n) { unsigned h = 2166136261u; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 16777619u; } return (h ^ (h >> 16)) & 0xffffff; }
static void fin(int code) { if (lg) fclose(lg); fflush(0); _exit(code); }

static void note(const char* k, int peer, size_t n, unsigned h) { if (lg) { fprintf(lg, "[\"%s\",%d,%zu,%u]\n", k, peer, n, h); fflush(lg); } }
extern "C" void mqmp_mark(void) { note("O", 0, 0, 0); }
static void step() { S->progress++; pthread_cond_broadcast(&S->cv); }
template <class P> static void waitfor(P pred) {  // mutex held
  while (!pred()) {
    if (S->aborted) { pthread_mutex_unlock(&S->mu); fin(87); }
    S->blocked[me] = 1; S->blockedat[me] = S->progress;
    bool dead = true;
    for (int r = 0; r < nr; ++r) if (!S->finished[r] && !(S->blocked[r] && S->blockedat[r] == S->progress)) dead = false;
    if (dead) { S->deadlock = 1; S->aborted = 1; fprintf(stderr, "MQMP: deadlock detected by rank %d\n", me); pthread_cond_broadcast(&S->cv); pthread_mutex_unlock(&S->mu); fin(86); }
    pthread_cond_wait(&S->cv, &S->mu);
    S->blocked[me] = 0;
  }
}

extern "C" {
QMP_status_t QMP_init_msg_passing(int*, char***, QMP_thread_level_t, QMP_thread_level_t* prv) {
  if (prv) *prv = QMP_THREAD_MULTIPLE;
  const char* e = getenv("MQMP_N"); nr = e ? atoi(e) : 1; if (nr < 1 || nr > MAXR) { fprintf(stderr, "MQMP_N?\n"); exit(2); }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  C = (Chan*)mmap(0, sizeof(Chan) * nr * nr, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slots = (char*)mmap(0, SLOT * nr, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || C == MAP_FAILED || slots == MAP_FAILED) { perror("mmap"); exit(2); }
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
  pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&S->cv, &ca);
  S->nranks = nr;
  if ((e = getenv("MQMP_JITTER"))) jit = atoi(e);
  if ((e = getenv("MQMP_RENDEZVOUS"))) rendez = atoi(e);
  if ((e = getenv("MQMP_MAP"))) maporder = atoi(e);
  if ((e = getenv("MQMP_ICTYPE"))) ictype = atoi(e);
  if ((e = getenv("MQMP_GRID"))) for (const char* q = e; *q;) { forced[nforced++] = (int)strtol(q, (char**)&q, 10); if (*q == ',') ++q; }
  unsigned seed = 1; if ((e = getenv("MQMP_SEED"))) seed = atoi(e);
  fflush(0);
  pid_t kids[MAXR];
  for (int r = 0; r < nr; ++r) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); for (int q = 0; q < r; ++q) kill(kids[q], SIGKILL); exit(2); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      me = r; inited = true; jseed = seed * 7919u + r * 104729u + 17u;
      if ((e = getenv("MQMP_LOG"))) { char b[4096]; snprintf(b, sizeof b, "%s.%d", e, r); lg = fopen(b, "w"); }
      if ((e = getenv("MQMP_OUT"))) { char b[4096]; snprintf(b, sizeof b, "%s.%d", e, r); if (!freopen(b, "w", stdout)) exit(2); }
      return QMP_SUCCESS;
    }
    kids[r] = p;
  }
  int code = 0, alive = nr;
  while (alive > 0) {
    int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
    --alive;
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    int r = -1; for (int q = 0; q < nr; ++q) if (kids[q] == p) { r = q; kids[q] = 0; }
    // a rank that left without finalising while the others need it: end the run
    if (rc == 0 && r >= 0 && !S->finished[r]) rc = 85;
    if (rc != 0 && code == 0) { code = S->why ? S->why : rc; usleep(50000); for (int q = 0; q < nr; ++q) if (kids[q]) kill(kids[q], SIGKILL); }
  }
  _exit(code);
}
QMP_bool_t QMP_is_initialized(void) { return inited; }
void QMP_finalize_msg_passing(void) {
  long left = 0;
  pthread_mutex_lock(&S->mu);
  S->finished[me] = 1; step();
  // a rank that is blocked now may be waiting for us in vain: let it find out
  pthread_mutex_unlock(&S->mu);
  if (lg) { note("F", (int)nopen_mem, (size_t)nopen_hnd, 0); fclose(lg); lg = 0; }
  (void)left;
}
void QMP_abort(int status) { if (S) { pthread_mutex_lock(&S->mu); if (!S->aborted) S->why = status ? status : 84; S->aborted = 1; step(); pthread_mutex_unlock(&S->mu); } fin(status ? status : 84); }
int QMP_get_number_of_nodes(void) { return nr; }
int QMP_get_node_number(void) { return me; }
QMP_ictype_t QMP_get_msg_passing_type(void) { return (QMP_ictype_t)ictype; }
QMP_status_t QMP_declare_logical_topology(const int* d, int n) {
  long v = 1; for (int i = 0; i < n; ++i) { if (d[i] < 1) return QMP_INVALID_ARG; ldims[i] = d[i]; v *= d[i]; }
  if (v != nr) return QMP_INVALID_ARG; ldim_n = n; declared = true;
  int* c = QMP_get_logical_coordinates_from(me); memcpy(lcoord, c, n * sizeof(int)); free(c); return QMP_SUCCESS;
}
QMP_status_t QMP_layout_grid(int* dims, int n) {
  if (!declared) {
    int l[8], rest[8]; for (int i = 0; i < n; ++i) { l[i] = 1; rest[i] = dims[i]; }
    int m = nr;
    if (nforced == n) { m = 1; for (int i = 0; i < n; ++i) l[i] = forced[i]; }
    for (int p = 2; m > 1;) {
      if (m % p) { ++p; continue; }
      int b = -1; for (int i = 0; i < n; ++i) if (rest[i] % p == 0 && (b < 0 || rest[i] >= rest[b])) b = i;
      if (b < 0) { fprintf(stderr, "MQMP: cannot lay out the grid\n"); return QMP_ERROR; }
      rest[b] /= p; l[b] *= p; m /= p;
    }
    QMP_declare_logical_topology(l, n);
  }
  for (int i = 0; i < n; ++i) if (dims[i] % ldims[i]) { fprintf(stderr, "MQMP: grid not divisible\n"); return QMP_ERROR; }
  return QMP_SUCCESS;
}
int QMP_get_logical_number_of_dimensions(void) { return ldim_n; }
const int* QMP_get_logical_dimensions(void) { return ldims; }
const int* QMP_get_logical_coordinates(void) { return lcoord; }
int* QMP_get_logical_coordinates_from(int node) {
  int* c = (int*)malloc(sizeof(int) * 8);
  if (maporder == 0) for (int i = 0; i < ldim_n; ++i) { c[i] = node % ldims[i]; node /= ldims[i]; }
  else for (int i = ldim_n - 1; i >= 0; --i) { c[i] = node % ldims[i]; node /= ldims[i]; }
  return c;
}
int QMP_get_node_number_from(const int* c) {
  int n = 0;
  if (maporder == 0) for (int i = ldim_n - 1; i >= 0; --i) n = n * ldims[i] + c[i];
  else for (int i = 0; i < ldim_n; ++i) n = n * ldims[i] + c[i];
  return n;
}
struct mq_mem { void* p; };
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t align, int) { mq_mem* m = new mq_mem; if (posix_memalign(&m->p, align < 8 ? 8 : align, n ? n : 1)) { delete m; return 0; } memset(m->p, 0xA5, n); ++nopen_buf; return m; }
void* QMP_get_memory_pointer(QMP_mem_t* m) { return m->p; }
void QMP_free_memory(QMP_mem_t* m) { free(m->p); delete m; --nopen_buf; }
struct mq_msgmem { char* p; size_t n; };
struct mq_msghandle { int kind; int peer; QMP_msgmem_t m; bool active; uint64_t ticket; std::vector<QMP_msghandle_t> sub; };
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n) { mq_msgmem* m = new mq_msgmem; m->p = (char*)p; m->n = n; ++nopen_mem; return m; }
void QMP_free_msgmem(QMP_msgmem_t m) { delete m; --nopen_mem; }
static QMP_msghandle_t mk(int kind, QMP_msgmem_t m, int peer) {
  if (kind != 2 && (peer < 0 || peer >= nr)) { fprintf(stderr, "MQMP: bad peer %d\n", peer); QMP_abort(4); }
  mq_msghandle* h = new mq_msghandle; h->kind = kind; h->peer = peer; h->m = m; h->active = false; h->ticket = 0; ++nopen_hnd; return h; }
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int) { return mk(0, m, node); }
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int) { return mk(1, m, node); }
static int rel(int axis, int dir) { int c[8]; memcpy(c, lcoord, sizeof c); c[axis] = (c[axis] + dir + ldims[axis]) % ldims[axis]; return QMP_get_node_number_from(c); }
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int a, int d, int) { return mk(0, m, rel(a, d)); }
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int a, int d, int) { return mk(1, m, rel(a, d)); }
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* hs, int n) { QMP_msghandle_t h = mk(2, 0, 0); for (int i = 0; i < n; ++i) h->sub.push_back(hs[i]); return h; }
void QMP_free_msghandle(QMP_msghandle_t h) { for (size_t i = 0; i < h->sub.size(); ++i) QMP_free_msghandle(h->sub[i]); delete h; --nopen_hnd; }
QMP_status_t QMP_start(QMP_msghandle_t h) {
  jitter();
  if (h->kind == 2) { for (size_t i = 0; i < h->sub.size(); ++i) QMP_start(h->sub[i]); return QMP_SUCCESS; }
  if (h->active) { fprintf(stderr, "MQMP: handle started twice\n"); QMP_abort(5); }
  h->active = true;
  if (h->kind == 0) {
    Chan& c = ch(me, h->peer); size_t need = h->m->n + 16;
    if (need > CAP) { fprintf(stderr, "MQMP: message too long\n"); QMP_abort(6); }
    pthread_mutex_lock(&S->mu);
    note("S", h->peer + 1, h->m->n, hsh(h->m->p, h->m->n));
    waitfor([&] { return c.head - c.tail + need <= CAP; });
    uint64_t hd[2] = {h->m->n, c.nsent}; const char* src = (const char*)hd;
    for (size_t i = 0; i < 16; ++i) c.buf[(c.head + i) % CAP] = src[i];
    for (size_t i = 0; i < h->m->n; ++i) c.buf[(c.head + 16 + i) % CAP] = h->m->p[i];
    c.head += need; h->ticket = ++c.nsent; step();
    pthread_mutex_unlock(&S->mu);
  } else {
    pthread_mutex_lock(&S->mu); note("P", h->peer + 1, h->m->n, 0); memset(h->m->p, 0xA5, h->m->n); /* nothing to be read there until the wait */ ch(h->peer, me).nposted++; step(); pthread_mutex_unlock(&S->mu);
  }
  return QMP_SUCCESS;
}
QMP_status_t QMP_wait(QMP_msghandle_t h) {
  jitter();
  if (h->kind == 2) { // all parts of a multiple handle go on together: what can end without the others first
    for (int k = 1; k >= 0; --k) for (size_t i = 0; i < h->sub.size(); ++i) if (h->sub[i]->kind == k) QMP_wait(h->sub[i]);
    for (size_t i = 0; i < h->sub.size(); ++i) if (h->sub[i]->kind == 2) QMP_wait(h->sub[i]);
    return QMP_SUCCESS; }
  if (!h->active) { fprintf(stderr, "MQMP: wait on an idle handle\n"); QMP_abort(5); }
  h->active = false;
  pthread_mutex_lock(&S->mu);
  if (h->kind == 0) { if (rendez) { Chan& c = ch(me, h->peer); waitfor([&] { return c.nposted >= h->ticket; }); } note("W", h->peer + 1, h->m->n, hsh(h->m->p, h->m->n)); }
  else {
    Chan& c = ch(h->peer, me);
    waitfor([&] { return c.head > c.tail; });
    uint64_t hd[2]; char* d = (char*)hd; for (size_t i = 0; i < 16; ++i) d[i] = c.buf[(c.tail + i) % CAP];
    if (hd[0] != h->m->n) {
      fprintf(stderr, "MQMP: rank %d expects %zu bytes from %d, message has %zu\n", me, h->m->n, h->peer, (size_t)hd[0]);
      note("R", h->peer + 1, h->m->n, 0);
      S->aborted = 1; step(); pthread_mutex_unlock(&S->mu); fin(88);
    }
    for (size_t i = 0; i < hd[0]; ++i) h->m->p[i] = c.buf[(c.tail + 16 + i) % CAP];
    c.tail += hd[0] + 16; c.nrecv++; step();
    note("R", h->peer + 1, h->m->n, hsh(h->m->p, h->m->n));
  }
  pthread_mutex_unlock(&S->mu);
  return QMP_SUCCESS;
}
const char* QMP_error_string(QMP_status_t) { return "QMP error"; }

/* every rank deposits its contribution, then everybody sees all of them */
static void gather(char kind, const void* p, size_t n) {
  jitter();
  if (n > SLOT) { fprintf(stderr, "MQMP: collective too long\n"); QMP_abort(6); }
  pthread_mutex_lock(&S->mu);
  waitfor([&] { return S->left == 0; });  // the previous round is fully read
  S->kind[me] = kind; S->len[me] = n; memcpy(slots + SLOT * me, p, n);
  uint64_t g = S->gen;
  if (++S->arrived == nr) {
    for (int r = 1; r < nr; ++r) if (S->kind[r] != S->kind[0] || S->len[r] != S->len[0]) S->mismatch = 1;
    S->arrived = 0; S->left = nr; S->gen++;
  }
  step();
  waitfor([&] { return S->gen != g; });
  if (S->mismatch) { fprintf(stderr, "MQMP: mismatched collectives (rank %d: %c %zu)\n", me, kind, n); S->aborted = 1; step(); pthread_mutex_unlock(&S->mu); fin(89); }
  pthread_mutex_unlock(&S->mu);
}
static void gather_done(char kind, size_t n, const void* res) {
  pthread_mutex_lock(&S->mu);
  note("C", kind, n, hsh(res, n));
  if (--S->left == 0) {}
  step();
  pthread_mutex_unlock(&S->mu);
}
QMP_status_t QMP_broadcast(void* p, size_t n) { gather('B', p, n); memcpy(p, slots, n); gather_done('B', n, p); return QMP_SUCCESS; }
#define RED(NAME, T, K, OP) \
  static void NAME(T* v, int n) { gather(K, v, n * sizeof(T)); \
    for (int i = 0; i < n; ++i) { T a = ((T*)slots)[i]; for (int r = 1; r < nr; ++r) { T b = ((T*)(slots + SLOT * r))[i]; OP; } v[i] = a; } \
    gather_done(K, n * sizeof(T), v); }
RED(sumi, int, 'i', a += b)
RED(sumf, float, 'f', a += b)
RED(sumd, double, 'd', a += b)
RED(maxf, float, 'X', if (b > a) a = b)
RED(maxd, double, 'x', if (b > a) a = b)
RED(minf, float, 'N', if (b < a) a = b)
RED(mind, double, 'n', if (b < a) a = b)
QMP_status_t QMP_sum_int(int* v) { sumi(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_sum_float(float* v) { sumf(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_sum_double(double* v) { sumd(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_sum_float_array(float* v, int n) { sumf(v, n); return QMP_SUCCESS; }
QMP_status_t QMP_sum_double_array(double* v, int n) { sumd(v, n); return QMP_SUCCESS; }
QMP_status_t QMP_max_float(float* v) { maxf(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_max_double(double* v) { maxd(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_min_float(float* v) { minf(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_min_double(double* v) { mind(v, 1); return QMP_SUCCESS; }
QMP_status_t QMP_binary_reduction(void* v, size_t n, QMP_binary_func f) {
  gather('R', v, n);
  // operands live in buffers with room behind them: reduction functions may use wider words than n
  std::vector<char> a(n + 16, 0), b(n + 16, 0); memcpy(&a[0], slots, n);
  for (int r = 1; r < nr; ++r) { memset(&b[0], 0, n + 16); memcpy(&b[0], slots + SLOT * r, n); f(&a[0], &b[0]); }
  memcpy(v, &a[0], n); gather_done('R', n, v); return QMP_SUCCESS;
}
void QMP_verbose(QMP_bool_t) {}
QMP_status_t QMP_barrier(void) { char c = 0; gather('b', &c, 1); gather_done('b', 1, &c); return QMP_SUCCESS; }
int DML_route_bytes(char* buf, size_t size, int from, int to) {
  if (from == to) return 0;
  if (me == from) { QMP_msgmem_t m = QMP_declare_msgmem(buf, size); QMP_msghandle_t h = QMP_declare_send_to(m, to, 0); QMP_start(h); QMP_wait(h); QMP_free_msghandle(h); QMP_free_msgmem(m); }
  if (me == to) { QMP_msgmem_t m = QMP_declare_msgmem(buf, size); QMP_msghandle_t h = QMP_declare_receive_from(m, from, 0); QMP_start(h); QMP_wait(h); QMP_free_msghandle(h); QMP_free_msgmem(m); }
  return 0;
}
QMP_status_t QMP_route(void* b, QMP_u32_t n, QMP_u32_t s, QMP_u32_t d) { DML_route_bytes((char*)b, n, s, d); return QMP_SUCCESS; }
}
