// Straightforward stand-ins for the SU(3) kernels of the libintrin submodule, whose sources are not in this
// tree: the qdp++ code that dispatches to them (lib/scalarsite_sse/qdp_scalarsite_sse.cc,
// qdp_scalarsite_sse_linalg.h, the fused spin evaluates) is what is compiled and checked with them.
#ifndef LIBINTRIN_STANDIN_H
#define LIBINTRIN_STANDIN_H
#include <complex>
typedef struct { std::complex<float> e[3][3]; } su3_matrixf;
typedef struct { std::complex<float> c[3]; } su3_vectorf;
typedef struct { su3_vectorf h[2]; } half_wilson_vectorf;
static inline void intrin_put(su3_matrixf* c, const su3_matrixf& t) { *c = t; }
#define INTRIN_MM(name, A, B) static inline void name(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_matrixf t; \
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { std::complex<float> s = 0; for (int k = 0; k < 3; ++k) s += A * B; t.e[i][j] = s; } *c = t; }
INTRIN_MM(intrin_sse_mult_su3_nn, a->e[i][k], b->e[k][j])
INTRIN_MM(intrin_sse_mult_su3_na, a->e[i][k], std::conj(b->e[j][k]))
INTRIN_MM(intrin_sse_mult_su3_an, std::conj(a->e[k][i]), b->e[k][j])
static inline void intrin_sse_mult_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) {
  su3_vectorf t; for (int i = 0; i < 3; ++i) { t.c[i] = 0; for (int k = 0; k < 3; ++k) t.c[i] += a->e[i][k] * b->c[k]; } *c = t; }
static inline void intrin_sse_mult_adj_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) {
  su3_vectorf t; for (int i = 0; i < 3; ++i) { t.c[i] = 0; for (int k = 0; k < 3; ++k) t.c[i] += std::conj(a->e[k][i]) * b->c[k]; } *c = t; }
static inline void intrin_sse_mult_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) {
  for (int s = 0; s < 2; ++s) intrin_sse_mult_su3_mat_vec(a, &b->h[s], &c->h[s]); }
static inline void intrin_sse_mult_adj_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) {
  for (int s = 0; s < 2; ++s) intrin_sse_mult_adj_su3_mat_vec(a, &b->h[s], &c->h[s]); }
static inline void intrin_sse_add_su3_vector(su3_vectorf* a, su3_vectorf* b, su3_vectorf* c) { for (int i = 0; i < 3; ++i) c->c[i] = a->c[i] + b->c[i]; }
#endif
