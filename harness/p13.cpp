// C13: matrix division with remainder, basis reduction
#include "common.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
// row-reduced square matrix: given row degrees, invertible leading matrix
static PM gen_redB(Ctx &k, long n, VL &rd, long dmax)
{
    Rng &r = k.rng; CM L = rcm_inv(r, n); PM B; B.SetDims(n, n); rd.resize(n); int w = r.below(4); k.tag(S("B" << w)); long d0 = r.in(0, dmax);
    for (long i = 0; i < n; i++) { rd[i] = w == 0 ? d0 : w == 1 ? r.in(0, dmax) : w == 2 ? (r.chance(70) ? 0 : dmax) : r.in(std::max(0L, dmax - 1), dmax); for (long j = 0; j < n; j++) { B[i][j] = rpoly(r, rd[i]); SetCoeff(B[i][j], rd[i], L[i][j]); } }
    return B;
}
OP("C13", quo_rem, 80, 3000, 10000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(10) ? 1 : r.in(1, k.sz(4, 6, 10)), s = r.chance(40) ? n : r.in(1, 2 * n); VL rd; PM B = gen_redB(k, n, rd, r.in(0, k.sz(5, 12, 30)));
    PM A = r.chance(70) ? rmat(r, n, s, r.in(0, k.sz(20, 60, 200))) : rmatS(r, n, s, r.in(0, k.sz(20, 60, 200))); int w = r.below(5);
    if (w == 0) A = rmul(B, rmat(r, n, s, r.in(0, 20)));                                       // exact
    else if (w == 1) { for (long i = 0; i < n; i++) for (long j = 0; j < s; j++) trunc(A[i][j], A[i][j], rd[i] + r.in(-1, 1) < 0 ? 0 : rd[i] + r.in(0, 1)); }   // around the row degrees
    else if (w == 2) { for (long i = 0; i < n; i++) { long e = r.in(0, k.sz(20, 60, 200)); for (long j = 0; j < s; j++) trunc(A[i][j], A[i][j], e); } }
    k.tag(S("qr" << w)); k.d << "A=" << dims(A) << " B=" << dims(B) << " rdeg(B)=" << show(rd);
    PM Q, R; k.in("A", A).in("B", B).out("Q", Q).out("R", R); k.run([&]() { quo_rem(Q, R, A, B); });
    k.check(Q.NumRows() == n && Q.NumCols() == s && R.NumRows() == n && R.NumCols() == s, S("quo_rem: Q is " << dims(Q) << ", R is " << dims(R)));
    k.check(normalized(Q) && normalized(R), "quo_rem: unnormalized result");
    k.check(same(radd(rmul(B, Q), R), A), "quo_rem: A differs from B*Q+R");
    for (long i = 0; i < n; i++) for (long j = 0; j < s; j++) k.check(deg(R[i][j]) < rd[i], S("quo_rem: remainder has degree " << deg(R[i][j]) << " in row " << i));
}
OP("C13", reduced_form, 60, 1200, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(10) ? 1 : r.in(1, k.sz(4, 6, 9)), len = r.in(1, k.sz(5, 8, 16)); PM A; int w = r.below(6); k.tag(S("rf" << w));
    switch (w) {
    case 0: A = rmat(r, n, n, len); break;
    case 1: A = rmatS(r, n, n, len); break;
    case 2: { VL rd; A = rmul(rmat_unimod(r, n, 3), gen_redB(k, n, rd, len)); break; }
    case 3: A = rmat_unimod(r, n, len); break;
    case 4: A = rmat(r, n, n, len); for (long i = 0; i < n; i++) { long e = r.in(0, len); for (long j = 0; j < n; j++) trunc(A[i][j], A[i][j], e); } break;
    default: { zz_pX f = rpoly(r, len); A = rmat(r, n, n, 2); for (long i = 0; i < n; i++) if (r.chance(60)) for (long j = 0; j < n; j++) A[i][j] *= f; }
    }
    bool fixc = r.chance(85); if (fixc && w != 3) { CM c = rcm_inv(r, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(A[i][j], 0, c[i][j]); }
    k.d << "A=" << dims(A); CM A0 = rcoeff(A, 0); bool inv0 = rrank(A0) == n; long ret = -1; PM R; k.in("pmat", A).out("reduced", R);
    k.run([&]() { ret = reduced_form_gjv(R, A); k.undef = ret != 1; });
    k.check(ret == (inv0 ? 1 : 0), S("reduced_form_gjv: returned " << ret << ", constant term is " << (inv0 ? "invertible" : "singular"))); k.tag(S("ret" << ret));
    if (!ret) return;
    k.check(R.NumRows() == n && R.NumCols() == n && normalized(R), S("reduced_form_gjv: result is " << dims(R)));
    k.check(o_form(R, VL(n, 0)) >= 1, "reduced_form_gjv: result is not row reduced");
    zz_pX dA = rdet(A), dR = rdet(R); k.check(deg(dA) == deg(dR), S("reduced_form_gjv: determinant of degree " << deg(dR) << " instead of " << deg(dA)));
    // R = U*A with U polynomial: transposed system A^T U^T = R^T as a series, then exactly
    long N = n * std::max(1L, rdeg(A)) + std::max(0L, rdeg(R)) + 2; PM At = rtransp(A), Rt = rtransp(R), U = rzero(n, n); CM I = NTL::inv(rcoeff(At, 0)); PM res = Rt;
    for (long t = 0; t < N; t++) { CM c = rcmul(I, rcoeff(res, 0)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(U[i][j], t, c[i][j]); PM s = rsub(res, rmul(At, rmul(c, rident(n)))); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) s[i][j] = RightShift(s[i][j], 1); res = s; if (rIsZero(res)) break; }
    k.check(same(rmul(At, U), Rt), "reduced_form_gjv: rows of the result do not lie in the row space of the input");
}
