// C08: kernel bases
#include "bases.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT

// shifted row degrees (by pivot) of a minimal kernel basis, from an independent approximant basis at sufficient order
struct KerRef { VL piv, rd; };
static KerRef ref_kernel(const PM &F, const VL &sh)
{
    long m = F.NumRows(), n = F.NumCols(), d = std::max(0L, rdeg(F)); KerRef R;
    long amp = *std::max_element(sh.begin(), sh.end()) - *std::min_element(sh.begin(), sh.end());
    MinBasis B = o_approx(F, VL(n, (n + 1) * d + amp + 1), sh, true); PM z = rmul(B.P, F);
    for (long i = 0; i < m; i++) { bool zero = true; for (long j = 0; j < n; j++) if (!IsZero(z[i][j])) zero = false; if (zero) { R.piv.push_back(i); R.rd.push_back(B.delta[i] + sh[i]); } }
    return R;
}
// kernel inputs: any rank, dependent rows with multipliers of various degrees, zero rows/columns, unbalanced degrees
static PM gen_ker(Ctx &k, long m, long n, long len)
{
    Rng &r = k.rng; int w = r.below(11); PM F; k.tag(S("ker" << w));
    switch (w) {
    case 0: return rmat(r, m, n, len);
    case 1: return rmatS(r, m, n, len);
    case 2: { long q = r.in(0, std::min(m, n)); if (!q) return rzero(m, n); PM a = rmat(r, m, q, (len + 1) / 2), b = rmat(r, q, n, (len + 1) / 2); return rmul(a, b); }
    case 3: { F = rmat(r, m, n, len); for (long i = 0; i < m; i++) { long e = r.in(0, len); for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], e); } return F; }
    case 4: { F = rmat(r, m, n, len); for (long j = 0; j < n; j++) { long e = r.in(0, len); for (long i = 0; i < m; i++) trunc(F[i][j], F[i][j], e); } return F; }
    case 5: { F = rmat(r, m, n, std::max(1L, len / 2)); for (long i = 1; i < m; i++) if (r.chance(50)) { long t = r.below(i); zz_pX f = rpoly(r, std::max(1L, len / 2)); for (long j = 0; j < n; j++) F[i][j] = F[t][j] * f; } return F; }
    case 6: { F = rmat(r, m, n, len); for (long i = 1; i < m; i++) if (r.chance(40)) F[i] = F[r.below(i)]; for (long i = 0; i < m; i++) if (r.chance(20)) for (long j = 0; j < n; j++) clear(F[i][j]); return F; }
    case 7: { zz_pX g = rpoly(r, std::max(1L, len / 2)); F = rmat(r, m, n, std::max(1L, len / 2)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) F[i][j] *= g; return F; }
    case 9: {   // full rank, but the low-order coefficients are (partly) zero or dependent
        F = rmat(r, m, n, std::max(1L, len / 2)); VL a(m), b(n); for (auto &x : a) x = r.chance(50) ? 0 : r.in(1, len); for (auto &x : b) x = r.chance(50) ? 0 : r.in(1, len); if (r.chance(50)) a.assign(m, r.in(1, len));
        for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) F[i][j] <<= a[i] + b[j]; return F; }
    case 10: {  // U * diag(x^e) * V with unimodular-looking constants: invariant factors powers of x
        long q = std::min(m, n); PM a = rmat(r, m, q, 1), b = rmat(r, q, n, 1); for (long j = 0; j < q; j++) { long e = r.chance(30) ? 0 : r.in(0, len); for (long i = 0; i < m; i++) a[i][j] <<= e; } return rmul(a, b); }
    default: F = rzero(m, n); for (long i = 0; i < m; i++) F[i][r.below(n)] = rpolyS(r, len); return F;
    }
}
static void chk_kernel(Ctx &k, const char *who, const PM &K, const PM &F, const VL &sh0, const VL *rdout, const VL *piv)
{
    long m = F.NumRows(); KerRef R = ref_kernel(F, sh0);
    long rk = rrank(F);
    if ((long)R.rd.size() != m - rk) k.fail("harness: reference kernel has the wrong rank");
    k.check(K.NumRows() == m - rk && (K.NumCols() == m || K.NumRows() == 0), S(who << ": kernel basis is " << dims(K) << ", rank of the kernel is " << m - rk));
    k.tag(S("nullity" << std::min(3L, m - rk)));
    if (rdout) k.check((long)rdout->size() == K.NumRows(), S(who << ": degree list of length " << rdout->size()));
    if (piv) k.check((long)piv->size() == K.NumRows(), S(who << ": pivot list of length " << piv->size()));
    if (K.NumRows() == 0) return;
    k.check(normalized(K), "unnormalized entries");
    k.check(rIsZero(rmul(K, F)), S(who << ": a row is not in the kernel"));
    k.check(o_form(K, sh0) >= 1, S(who << ": basis is not shift-reduced")); k.check(o_form(K, sh0) >= 3, S(who << ": basis is not in ordered weak Popov form, the form is_kernel_basis asks for by default"));
    VL rd = o_rdeg(K, sh0);
    if (rdout) k.check(*rdout == rd, S(who << ": returned degrees " << show(*rdout) << ", actual shifted row degrees " << show(rd)));
    if (piv) { VL pi, pd; o_pivots(pi, pd, K, sh0); k.check(*piv == pi, S(who << ": returned pivots " << show(*piv) << ", actual " << show(pi))); }
    VL a = rd, b = R.rd; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    k.check(a == b, S(who << ": rows do not generate the kernel: row degrees " << show(a) << ", minimal ones are " << show(b)));
}
static void ker_case(Ctx &k, PM &F, VL &sh, long mx, long ml)
{
    Rng &r = k.rng; if (r.chance(4)) { mx = 2 * mx; ml = 3 * ml; }
    long m = r.in(1, mx), n = r.chance(30) ? 1 : r.chance(40) ? r.in(1, std::max(1L, m / 2)) : r.in(1, mx);
    long len = r.chance(10) ? 1 : r.in(1, ml);
    F = gen_ker(k, m, n, len);
    sh = r.chance(30) ? VL(m, 0) : rshift(r, m, -1, r.in(1, 2 * len));
    if (r.chance(30)) { for (long i = 0; i < m; i++) { sh[i] = 0; for (long j = 0; j < n; j++) sh[i] = std::max(sh[i], deg(F[i][j])); } }   // shift = row degree, the case of the literature
    k.d << "F=" << dims(F) << " shift=" << show(sh);
}
OP("C08", kernel_via_app, 120, 2500, 12000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh, piv; ker_case(k, F, sh0, k.sz(4, 6, 9), k.sz(4, 8, 14)); sh = sh0;
    k.in("pmat", F).inout("shift", sh).out("kerbas", K).out("pivind", piv);
    k.run([&]() { kernel_basis_via_approximation(K, piv, F, sh); });
    chk_kernel(k, "kernel_basis_via_approximation", K, F, sh0, &sh, &piv);
}
OP("C08", kernel_via_int, 120, 2500, 12000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh, piv; ker_case(k, F, sh0, k.sz(4, 6, 9), k.sz(4, 8, 14)); sh = sh0;
    k.in("pmat", F).inout("shift", sh).out("kerbas", K).out("pivind", piv);
    k.run([&]() { kernel_basis_via_interpolation(K, piv, F, sh); });
    chk_kernel(k, "kernel_basis_via_interpolation", K, F, sh0, &sh, &piv);
}
OP("C08", kernel_zls_app, 150, 3500, 16000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh; ker_case(k, F, sh0, k.sz(5, 7, 10), k.sz(4, 8, 14)); sh = sh0; PM F0 = F;
    k.inout("pmat", F).inout("shift", sh).out("kerbas", K);
    k.run([&]() { kernel_basis_zls_via_approximation(K, F, sh); });
    chk_kernel(k, "kernel_basis_zls_via_approximation", K, F0, sh0, &sh, 0);
}
OP("C08", kernel_zls_int, 150, 3500, 16000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh; ker_case(k, F, sh0, k.sz(5, 7, 10), k.sz(4, 8, 14)); sh = sh0; PM F0 = F;
    k.inout("pmat", F).inout("shift", sh).out("kerbas", K);
    k.run([&]() { kernel_basis_zls_via_interpolation(K, F, sh); });
    chk_kernel(k, "kernel_basis_zls_via_interpolation", K, F0, sh0, &sh, 0);
}
OP("C08", kernel_basis, 120, 2500, 12000)
{
    setmod(k, K_ALL); PM F, K; VL sh0; ker_case(k, F, sh0, k.sz(5, 7, 10), k.sz(4, 8, 14));
    k.in("pmat", F).in("shift", sh0).out("kerbas", K);
    k.run([&]() { kernel_basis(K, F, sh0); });
    chk_kernel(k, "kernel_basis", K, F, sh0, 0, 0);
}
// at least twice as many rows as columns and unbalanced shifts and degrees: the approximant basis then misses part of the kernel, which the
// algorithm completes by recursive calls and a merge; small degrees (constant and zero rows) and large shift entries included
static void ker_split(Ctx &k, PM &F, VL &sh)
{
    Rng &r = k.rng; long n = r.in(2, k.sz(3, 5, 6)), m = 2 * n + r.below(k.sz(3, 5, 7)), len = r.chance(50) ? r.in(1, 3) : r.in(1, k.sz(4, 6, 9));
    if (r.chance(40)) F = gen_ker(k, m, n, len);
    else {
        F = rmat(r, m, n, len);
        if (r.chance(50)) { PM U = rident(m); for (long t = r.below(3); t >= 0; t--) { long i = r.below(m); for (long j = 0; j < m; j++) if (j < i && r.chance(60)) U[i][j] = rpoly(r, r.in(1, 3)); } F = rmul(U, F); }     // some rows depend on the others
        if (r.chance(50)) { long q = r.in(1, n); PM B = rmat(r, m, q, len), C = rmat(r, q, n, r.in(1, 2)); F = rmul(B, C); }
    }
    for (long i = 0; i < m; i++) if (r.chance(25)) { long e = r.chance(30) ? 0 : r.chance(60) ? 1 : r.in(0, len); for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], e); }
    sh = VL(m); for (long i = 0; i < m; i++) { sh[i] = 0; for (long j = 0; j < n; j++) sh[i] = std::max(sh[i], deg(F[i][j])); }
    int w = r.below(4); long big = r.in(1, 6 * len + 10);
    if (w == 1) for (long t = r.in(1, 2); t > 0; t--) sh[r.below(m)] += big;
    if (w == 2) for (long i = 0; i < m; i++) sh[i] += r.in(0, big);
    if (w == 3) { for (long i = 0; i < m; i++) if (sh[i] <= 0 && r.chance(70)) sh[i] += big; }
    k.d << "F=" << dims(F) << " shift=" << show(sh);
}
OP("C08", kernel_zls_app_split, 100, 1500, 6000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh; ker_split(k, F, sh0); sh = sh0; PM F0 = F;
    k.inout("pmat", F).inout("shift", sh).out("kerbas", K);
    k.run([&]() { kernel_basis_zls_via_approximation(K, F, sh); });
    chk_kernel(k, "kernel_basis_zls_via_approximation", K, F0, sh0, &sh, 0);
}
OP("C08", kernel_zls_int_split, 100, 1500, 6000)
{
    setmod(k, K_ALL); PM F, K; VL sh0, sh; ker_split(k, F, sh0); sh = sh0; PM F0 = F;
    k.inout("pmat", F).inout("shift", sh).out("kerbas", K);
    k.run([&]() { kernel_basis_zls_via_interpolation(K, F, sh); });
    chk_kernel(k, "kernel_basis_zls_via_interpolation", K, F0, sh0, &sh, 0);
}
// generic kernel of a characteristic-type matrix [X I + A ; V] (m < n), the use made of it in timings/time_krylov.cpp
// an odd number of rows at some level of the recursion makes the degrees uneven, which the routine does not support (known finding)
static bool even_levels(long n, long m) { while (m < n) { if ((m + n) % 2) return false; n -= (m + n) / 2; } return true; }
static void ker_generic(Ctx &k, bool odd)
{
    setmod(k, K_BIG | K_FFT); Rng &r = k.rng; if (zz_p::modulus() < (1L << 40)) throw Skip();
    long n = r.in(3, k.sz(6, 14, 30)), m = r.in(odd ? 1 : 2, n - 1); if (((m + n) % 2 == 1) != odd) { if (m + 1 < n) m++; else m--; } if (!odd && m < 2) throw Skip(); if (!odd && n >= 24 && !even_levels(n, m)) { m = n - 2; } if (odd && k.idx % 2) { n = 24; m = 2; } k.d << "n=" << n << " m=" << m;
    PM F = rmat(r, m + n, n, 1), K; for (long i = 0; i < n; i++) SetCoeff(F[i][i], 1);
    PM F0 = F; k.inout("pmat", F).inout("kerbas", K);
    k.run([&]() { kernel_basis_generic(K, F); });
    k.tag(S("m+n" << (m + n) % 2));
    VL sh(m + n, 0);
    k.check(K.NumRows() == m && K.NumCols() == m + n, S("kernel_basis_generic: basis is " << dims(K)));
    k.check(rIsZero(rmul(K, F0)), "kernel_basis_generic: a row is not in the kernel");
    // all minors of K are those of the minimal basis times det(U), K = U * minimal; U must be unimodular
    KerRef R = ref_kernel(F0, sh); long want = 0; PM J; J.SetDims(m, m);
    for (long i = 0; i < m; i++) { want += R.rd[i]; for (long t = 0; t < m; t++) J[t][i] = K[t][R.piv[i]]; }
    long got = deg(rdet(J));
    k.check(got == want, S("kernel_basis_generic: does not generate the kernel: determinant degree " << got << " expected " << want));
}
OP("C08", kernel_generic, 30, 400, 2000) { ker_generic(k, false); }
OP("C08", kernel_generic_odd, 2, 4, 4) { ker_generic(k, true); }   // listed in known_findings.json
