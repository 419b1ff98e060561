// Oracle for minimal bases: membership is checked by the caller, generation by pivot degrees, form by definition.
#ifndef VERIF_BASES_H
#define VERIF_BASES_H
#include "common.h"
inline void chk_form(Ctx &k, const char *who, const PM &P, const VL &sh0, const VL &rdout, long want, const MinBasis &B)
{
    long m = sh0.size();
    k.check(P.NumRows() == m && P.NumCols() == m, S(who << ": basis is " << dims(P) << ", expected " << m << "x" << m));
    k.check(normalized(P), S(who << ": basis has unnormalized entries"));
    k.check(rdout == o_rdeg(P, sh0), S(who << ": returned shift " << show(rdout) << " is not the shifted row degree " << show(o_rdeg(P, sh0))));
    long f = o_form(P, sh0);
    k.check(f >= want, S(who << ": form " << f << " weaker than promised " << want << ": " << show(P)));
    if (f >= 3) {
        VL pi, pd; o_pivots(pi, pd, P, sh0);
        k.check(pd == B.delta, S(who << ": pivot degrees " << show(pd) << " differ from those of the minimal basis " << show(B.delta)));
    }
    else {   // reduced: row degrees of any two reduced bases agree up to order
        VL a = o_rdeg(P, sh0), b(m); for (long i = 0; i < m; i++) b[i] = B.delta[i] + sh0[i];
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        k.check(a == b, S(who << ": row degrees " << show(a) << " differ from those of a minimal basis " << show(b)));
    }
}
inline bool in_approx(const PM &P, const PM &F, const VL &order)
{
    PM R = rmul(P, F);
    for (long i = 0; i < R.NumRows(); i++) for (long j = 0; j < R.NumCols(); j++) if (!IsZero(trunc(R[i][j], order[j]))) return false;
    return true;
}
inline void chk_approx(Ctx &k, const char *who, const PM &P, const PM &F, const VL &order, const VL &sh0, const VL &rdout, long want, const MinBasis &B)
{
    chk_form(k, who, P, sh0, rdout, want, B);
    k.check(in_approx(P, F, order), S(who << ": a row is not an approximant"));
}
#endif
