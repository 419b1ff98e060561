// uses the library under a foreign modulus, so that any state kept between calls would be visible afterwards
#include "common.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
PML_CLIENT
void perturb_library(Rng &r)
{
    PM a = rmat(r, 3, 2, 10), b = rmat(r, 2, 4, 9), c;
    multiply(c, a, b);
    if (zz_p::modulus() > 100000) {
        VL sh(3, 0); PM ap; pmbasis(ap, a, 4 + r.below(4), sh);
        zz_p g, t; do { g = rnz(r); t = g; for (int i = 1; i < 40 && t != 1; i++) t *= g; } while (t == 1);
        zz_pX_Multipoint_Geometric ev(g, 20); CV v; ev.evaluate(v, rpoly(r, 20));
    }
}
