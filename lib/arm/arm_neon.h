/* The operations of Arm's arm_neon.h that the ASIMD build uses, with the
   meaning the Arm C language extensions give them, for machines that lack
   the instructions. Everything else in the ASIMD build is the library's code. */
#pragma once
typedef double float64x2_t __attribute__((vector_size(16)));
#define ARM_OP static inline __attribute__((always_inline))
ARM_OP float64x2_t vld1q_f64(double const *p) { return (float64x2_t){p[0], p[1]}; }
ARM_OP float64x2_t vdupq_n_f64(double a) { return (float64x2_t){a, a}; }
ARM_OP float64x2_t vnegq_f64(float64x2_t a) { return -a; }
ARM_OP float64x2_t vaddq_f64(float64x2_t a, float64x2_t b) { return a + b; }
ARM_OP float64x2_t vsubq_f64(float64x2_t a, float64x2_t b) { return a - b; }
ARM_OP float64x2_t vmulq_f64(float64x2_t a, float64x2_t b) { return a * b; }
ARM_OP float64x2_t vdivq_f64(float64x2_t a, float64x2_t b) { return a / b; }
ARM_OP float64x2_t vsqrtq_f64(float64x2_t a) { return (float64x2_t){__builtin_sqrt(a[0]), __builtin_sqrt(a[1])}; }
ARM_OP float64x2_t vfmaq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { return a + b * c; }
ARM_OP float64x2_t vfmsq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { return a - b * c; }
ARM_OP double vaddvq_f64(float64x2_t a) { return a[0] + a[1]; }
