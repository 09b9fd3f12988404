/* Shim in front of the system <gmp.h>: turns the handful of GMP macros that peek at
   representation fields into calls, so that the verifier can treat them as GMP operations. */
#ifndef VP_SHIM_GMP_H
#define VP_SHIM_GMP_H
#include_next <gmp.h>
#ifdef __cplusplus
extern "C" {
#endif
int vp_mpz_sgn(mpz_srcptr); int vp_mpq_sgn(mpq_srcptr); int vp_mpf_sgn(mpf_srcptr); int vp_mpz_odd_p(mpz_srcptr); int vp_mpz_even_p(mpz_srcptr);
#ifdef __cplusplus
}
#endif
#undef mpz_sgn
#undef mpq_sgn
#undef mpf_sgn
#undef mpz_odd_p
#undef mpz_even_p
#define mpz_sgn(x) vp_mpz_sgn(x)
#define mpq_sgn(x) vp_mpq_sgn(x)
#define mpf_sgn(x) vp_mpf_sgn(x)
#define mpz_odd_p(x) vp_mpz_odd_p(x)
#define mpz_even_p(x) vp_mpz_even_p(x)
#endif
