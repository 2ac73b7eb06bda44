// Stand-in for libintrin (a submodule that is not in the tree): the eight single-precision SU(3)
// routines the SSE kernels call, in plain C, written from their names and uses.
#ifndef SU3_STANDIN_H
#define SU3_STANDIN_H
#include <complex>
// only ever pointed to: the callers cast addresses of their own objects
typedef struct su3_matrixf su3_matrixf;
typedef struct su3_vectorf su3_vectorf;
typedef struct half_wilson_vectorf half_wilson_vectorf;
namespace su3_standin {
typedef std::complex<float> C;
inline C g(const float* a, int k) { return C(a[2 * k], a[2 * k + 1]); }
inline C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline void mm(const void* A, const void* B, void* D, bool adja, bool adjb) {
  const float *a = (const float*)A, *b = (const float*)B; float t[18];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { C s(0, 0); for (int k = 0; k < 3; ++k) s += mul(adja ? std::conj(g(a, 3 * k + i)) : g(a, 3 * i + k), adjb ? std::conj(g(b, 3 * j + k)) : g(b, 3 * k + j)); t[6 * i + 2 * j] = s.real(); t[6 * i + 2 * j + 1] = s.imag(); }
  for (int i = 0; i < 18; ++i) ((float*)D)[i] = t[i]; }
inline void mv(const void* A, const void* B, void* D, bool adj, int n = 1) {
  const float* a = (const float*)A; float t[12];
  for (int v = 0; v < n; ++v) for (int i = 0; i < 3; ++i) { C s(0, 0); for (int k = 0; k < 3; ++k) s += mul(adj ? std::conj(g(a, 3 * k + i)) : g(a, 3 * i + k), g((const float*)B + 6 * v, k)); t[6 * v + 2 * i] = s.real(); t[6 * v + 2 * i + 1] = s.imag(); }
  for (int i = 0; i < 6 * n; ++i) ((float*)D)[i] = t[i]; }
}
inline void intrin_sse_mult_su3_nn(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_standin::mm(a, b, c, false, false); }
inline void intrin_sse_mult_su3_an(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_standin::mm(a, b, c, true, false); }
inline void intrin_sse_mult_su3_na(su3_matrixf* a, su3_matrixf* b, su3_matrixf* c) { su3_standin::mm(a, b, c, false, true); }
inline void intrin_sse_mult_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_standin::mv(a, b, c, false); }
inline void intrin_sse_mult_adj_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* c) { su3_standin::mv(a, b, c, true); }
inline void intrin_sse_mult_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { su3_standin::mv(a, b, c, false, 2); }
inline void intrin_sse_mult_adj_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* c) { su3_standin::mv(a, b, c, true, 2); }
inline void intrin_sse_add_su3_vector(su3_vectorf* a, su3_vectorf* b, su3_vectorf* c) { for (int i = 0; i < 6; ++i) ((float*)c)[i] = ((const float*)a)[i] + ((const float*)b)[i]; }
#endif
