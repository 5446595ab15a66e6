// Straightforward stand-ins for the single precision kernels of lib/scalarsite_sse/qdp_scalarsite_sse.cc,
// which needs an empty submodule and is not built here; the code that calls them is what is checked.
#include "qdp.h"
namespace QDP {
#define W __attribute__((weak))
W void vaxpy3(REAL32* o, REAL32* s, REAL32* x, REAL32* y, int n) { for (int i = 0; i < 24 * n; ++i) o[i] = *s * x[i] + y[i]; }
W void vaxmy3(REAL32* o, REAL32* s, REAL32* x, REAL32* y, int n) { for (int i = 0; i < 24 * n; ++i) o[i] = *s * x[i] - y[i]; }
W void local_sumsq_24_48(REAL64* o, REAL32* a, int n) { REAL64 x = 0; for (int i = 0; i < 24 * n; ++i) x += (REAL64)a[i] * a[i]; *o = x; }
W void vadd(REAL32* o, REAL32* a, REAL32* b, int n) { for (int i = 0; i < 24 * n; ++i) o[i] = a[i] + b[i]; }
W void vsub(REAL32* o, REAL32* a, REAL32* b, int n) { for (int i = 0; i < 24 * n; ++i) o[i] = a[i] - b[i]; }
W void vscal(REAL32* o, REAL32* s, REAL32* a, int n) { for (int i = 0; i < 24 * n; ++i) o[i] = *s * a[i]; }
W void local_vcdot(REAL64* re, REAL64* im, REAL32* a, REAL32* b, int n) {
  REAL64 x = 0, y = 0;
  for (int i = 0; i < 12 * n; ++i) { x += (REAL64)a[2*i] * b[2*i] + (REAL64)a[2*i+1] * b[2*i+1]; y += (REAL64)a[2*i] * b[2*i+1] - (REAL64)a[2*i+1] * b[2*i]; }
  *re = x; *im = y;
}
W void local_vcdot_real(REAL64* re, REAL32* a, REAL32* b, int n) { REAL64 x = 0; for (int i = 0; i < 24 * n; ++i) x += (REAL64)a[i] * b[i]; *re = x; }
}
