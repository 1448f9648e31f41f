/* The operations of Arm's arm_sve.h that the SVE build uses, with the meaning
   the Arm C language extensions give them at a vector length of 512 bits, for
   machines that lack the instructions. Everything else in the SVE build is the
   library's code. */
#pragma once
#ifndef __ARM_FEATURE_SVE_BITS
#define __ARM_FEATURE_SVE_BITS 512
#endif
#define arm_sve_vector_bits(n)
typedef double svfloat64_t __attribute__((vector_size(64)));
typedef float svfloat32_t __attribute__((vector_size(64)));
typedef long long svbool_t __attribute__((vector_size(64)));
#define ARM_OP static inline __attribute__((always_inline))
ARM_OP svfloat64_t svz_(svbool_t g, svfloat64_t x) { return (svfloat64_t)((svbool_t)x & g); }
ARM_OP svbool_t svptrue_b64(void) { return (svbool_t){-1, -1, -1, -1, -1, -1, -1, -1}; }
ARM_OP svbool_t svptrue_b32(void) { return svptrue_b64(); }
ARM_OP svbool_t svwhilelt_b64(long long a, long long b)
{ return (svbool_t){-(a < b), -(a + 1 < b), -(a + 2 < b), -(a + 3 < b), -(a + 4 < b), -(a + 5 < b), -(a + 6 < b), -(a + 7 < b)}; }
ARM_OP svfloat64_t svld1_f64(svbool_t g, double const *p)
{ return (svfloat64_t){g[0] ? p[0] : 0, g[1] ? p[1] : 0, g[2] ? p[2] : 0, g[3] ? p[3] : 0, g[4] ? p[4] : 0, g[5] ? p[5] : 0, g[6] ? p[6] : 0, g[7] ? p[7] : 0}; }
ARM_OP svfloat64_t svdup_f64_z(svbool_t g, double a) { return svz_(g, (svfloat64_t){a, a, a, a, a, a, a, a}); }
ARM_OP svfloat64_t svneg_f64_z(svbool_t g, svfloat64_t a) { return svz_(g, -a); }
ARM_OP svfloat64_t svadd_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b) { return svz_(g, a + b); }
ARM_OP svfloat64_t svsub_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b) { return svz_(g, a - b); }
ARM_OP svfloat64_t svmul_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b) { return svz_(g, a * b); }
ARM_OP svfloat64_t svdiv_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b) { return svz_(g, a / b); }
ARM_OP svfloat64_t svsqrt_f64_z(svbool_t g, svfloat64_t a)
{ return svz_(g, (svfloat64_t){__builtin_sqrt(a[0]), __builtin_sqrt(a[1]), __builtin_sqrt(a[2]), __builtin_sqrt(a[3]), __builtin_sqrt(a[4]), __builtin_sqrt(a[5]), __builtin_sqrt(a[6]), __builtin_sqrt(a[7])}); }
ARM_OP svfloat64_t svmad_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b, svfloat64_t c) { return svz_(g, a * b + c); }
ARM_OP svfloat64_t svmsb_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b, svfloat64_t c) { return svz_(g, c - a * b); }
ARM_OP svfloat64_t svnmad_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b, svfloat64_t c) { return svz_(g, -(a * b) - c); }
ARM_OP svfloat64_t svnmsb_f64_z(svbool_t g, svfloat64_t a, svfloat64_t b, svfloat64_t c) { return svz_(g, a * b - c); }
ARM_OP double svaddv_f64(svbool_t g, svfloat64_t a)
{ a = svz_(g, a); return ((a[0] + a[1]) + (a[2] + a[3])) + ((a[4] + a[5]) + (a[6] + a[7])); }
ARM_OP double svminv_f64(svbool_t g, svfloat64_t a)
{ double r = g[0] ? a[0] : __builtin_inf(); for (int i = 1; i < 8; i++) r = g[i] && a[i] < r ? a[i] : r; return r; }
ARM_OP double svmaxv_f64(svbool_t g, svfloat64_t a)
{ double r = g[0] ? a[0] : -__builtin_inf(); for (int i = 1; i < 8; i++) r = g[i] && a[i] > r ? a[i] : r; return r; }
