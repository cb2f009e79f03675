// A math library honouring the rounding direction, for replaying counterexamples:
// the functions the library's policies call, computed with MPFR and rounded in the
// direction in force at the call.
#include <cfenv>
#include <mpfr.h>

namespace {
struct val {
  mpfr_t x;
  int rm;
  mpfr_rnd_t d;
  val() : rm(fegetround()) {
    fesetround(FE_TONEAREST);
    mpfr_init2(x, 400);
    d = rm == FE_DOWNWARD ? MPFR_RNDD : rm == FE_UPWARD ? MPFR_RNDU : rm == FE_TOWARDZERO ? MPFR_RNDZ : MPFR_RNDN;
  }
  ~val() { mpfr_clear(x); fesetround(rm); }
};
}

#define FN(f)                                                                                                  \
  extern "C" double f(double a) { val v; mpfr_set_d(v.x, a, MPFR_RNDN); mpfr_##f(v.x, v.x, v.d); return mpfr_get_d(v.x, v.d); }      \
  extern "C" float f##f(float a) { val v; mpfr_set_flt(v.x, a, MPFR_RNDN); mpfr_##f(v.x, v.x, v.d); return mpfr_get_flt(v.x, v.d); } \
  extern "C" long double f##l(long double a) { val v; mpfr_set_ld(v.x, a, MPFR_RNDN); mpfr_##f(v.x, v.x, v.d); return mpfr_get_ld(v.x, v.d); }
FN(exp) FN(log) FN(sin) FN(cos) FN(tan) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(asinh) FN(acosh) FN(atanh)
