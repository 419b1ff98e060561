// C11: polynomial linear systems
#include "common.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
static PM col(const PV &v) { PM m = rzero(v.length(), 1); for (long i = 0; i < v.length(); i++) m[i][0] = v[i]; return m; }
static PM scal(const PM &a, const zz_pX &c) { PM b = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) b[i][j] = a[i][j] * c; return b; }
static PM gen_A(Ctx &k, long n, long len, bool inv0)
{
    Rng &r = k.rng; PM F; int w = r.below(6); k.tag(S("A" << w));
    switch (w) {
    case 0: F = rmat(r, n, n, len); break;
    case 1: F = rmatS(r, n, n, len); break;
    case 2: F = rmat(r, n, n, 1); break;
    case 3: { F = rmat(r, n, n, len); for (long i = 0; i < n; i++) { long e = r.in(1, len); for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], e); } break; }
    case 4: { zz_pX f = rpoly(r, std::max(1L, len / 2)); F = rmat(r, n, n, 1); for (long i = 0; i < n; i++) if (r.chance(70)) for (long j = 0; j < n; j++) F[i][j] *= f; break; }   // repeated invariant factors
    default: F = rmat_unimod(r, n, len); break;
    }
    if (inv0) { CM c = rcm_inv(r, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(F[i][j], 0, c[i][j]); }
    return F;
}
static void chk_sol(Ctx &k, const char *who, const PM &A, const PV &b, const PV &u, const zz_pX &den)
{
    k.check(u.length() == A.NumCols(), S(who << ": u has length " << u.length()));
    k.check(normalized(u) && normalized(den), S(who << ": unnormalized result"));
    k.check(!IsZero(den), S(who << ": zero denominator"));
    k.check(same(rmul(A, col(u)), scal(col(b), den)), S(who << ": A*u differs from den*b"));
    bool zb = true; for (long i = 0; i < b.length(); i++) if (!IsZero(b[i])) zb = false;
    if (zb || rrank(A) < A.NumCols()) return;
    zz_pX g = den; for (long i = 0; i < u.length(); i++) g = GCD(g, u[i]);
    k.check(deg(g) == 0, S(who << ": answer is not in lowest terms, common factor of degree " << deg(g)));
}
OP("C11", linsolve_series, 60, 1500, 5000)
{
    setmod(k, K_BIG | K_FFT); Rng &r = k.rng; if (zz_p::modulus() < (1L << 45)) throw Skip();   // randomised: error probability about n*d/p
    long n = r.chance(15) ? 1 : r.in(1, k.sz(4, 7, 12)), len = r.in(1, k.sz(6, 12, 30)); PM A = gen_A(k, n, len, true);
    PV b = rvec(r, n, r.in(0, 2 * len)), u; if (r.chance(15)) for (long i = 0; i < n; i++) if (r.chance(60)) clear(b[i]);
    zz_pX den; bool al = r.chance(25); k.d << "A=" << dims(A) << " alias=" << al; PV b0 = b;
    if (al) { k.in("A", A).inout("b", b); k.run([&]() { linsolve_via_series(b, den, A, b); }); u = b; }
    else { k.in("A", A).in("b", b).out("u", u).out("den", den); k.run([&]() { linsolve_via_series(u, den, A, b); }); }
    chk_sol(k, "linsolve_via_series", A, b0, u, den);
}
OP("C11", linsolve_kernel, 60, 2000, 8000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(15) ? 1 : r.in(1, k.sz(4, 6, 10)), len = r.in(1, k.sz(6, 10, 20));
    bool rect = r.chance(25); PM A; PV b;
    if (!rect) { A = gen_A(k, n, len, r.chance(30)); b = rvec(r, n, r.in(0, 2 * len)); }
    else { long m = r.in(1, n + 2); A = rmatS(r, m, n, len); b = rvec(r, m, r.in(0, len)); if (r.chance(60)) { PM x = rmat(r, n, 1, len), y = rmul(A, x); for (long i = 0; i < m; i++) b[i] = y[i][0]; } k.tag("rect"); }
    PV u; zz_pX den; long ret = 0; k.d << "A=" << dims(A);
    k.in("A", A).in("b", b).out("u", u).out("den", den); k.run([&]() { ret = linsolve_via_kernel(u, den, A, b); k.undef = ret != 1; });
    PM Ab; Ab.SetDims(A.NumRows(), A.NumCols() + 1); for (long i = 0; i < A.NumRows(); i++) { for (long j = 0; j < A.NumCols(); j++) Ab[i][j] = A[i][j]; Ab[i][A.NumCols()] = b[i]; }
    long ra = rrank(A), rb = rrank(Ab); k.tag(S("ret" << ret));
    k.check(ret == 0 || ret == 1, "linsolve_via_kernel: return value");
    if (ra == A.NumCols() && rb == ra) k.check(ret == 1, "linsolve_via_kernel: no solution reported for a solvable system");
    if (ret == 1) { k.check(rb == ra, "linsolve_via_kernel: solution reported for an unsolvable system"); chk_sol(k, "linsolve_via_kernel", A, b, u, den); }
}
// the two solvers agree up to a constant factor
OP("C11", linsolve_agree, 40, 600, 2000)
{
    setmod(k, K_BIG | K_FFT); Rng &r = k.rng; if (zz_p::modulus() < (1L << 45)) throw Skip();
    long n = r.in(1, k.sz(4, 6, 10)), len = r.in(1, k.sz(6, 10, 20)); PM A = gen_A(k, n, len, true); PV b = rvec(r, n, r.in(1, 2 * len)), u, v; zz_pX du, dv; long ret = 0;
    k.d << "A=" << dims(A); k.in("A", A).in("b", b).out("u", u).out("v", v).out("du", du).out("dv", dv);
    k.run([&]() { linsolve_via_series(u, du, A, b); ret = linsolve_via_kernel(v, dv, A, b); MakeMonic(dv); });
    bool zb = true; for (long i = 0; i < n; i++) if (!IsZero(b[i])) zb = false; if (zb) { k.nontriv = false; return; }
    k.check(ret == 1 && !IsZero(du), "a solver failed"); MakeMonic(du); k.check(du == dv, "linsolve_via_series and linsolve_via_kernel return different denominators");
}
