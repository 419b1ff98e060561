// C06: approximant bases
#include "bases.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT

static void dimsmn(Ctx &k, long &m, long &n, long mx)
{
    Rng &r = k.rng; int w = r.below(6);
    if (w == 0) { m = r.in(1, mx); n = 1; } else if (w == 1) { n = r.in(1, mx / 2); m = 2 * n; } else if (w == 2) { m = r.in(1, mx); n = r.in(1, m); } else if (w == 3) { m = r.in(1, 3); n = r.in(1, mx); } else { m = r.in(1, mx); n = r.in(1, mx); }
}
typedef void (*Uni)(Mat<zz_pX> &, const Mat<zz_pX> &, const long, VecLong &);
static void uniform(Ctx &k, const char *who, Uni f, long want, long mx, long mo)
{
    setmod(k, K_ALL); Rng &r = k.rng;
    long m, n; dimsmn(k, m, n, mx);
    long ord = r.chance(15) ? 1 : r.chance(30) ? r.in(1, 6) : r.in(1, mo), len = r.chance(60) ? ord : r.chance(50) ? r.in(0, ord) : ord + r.in(1, 5);
    PM F = gen_bas(k, m, n, len), P; VL sh0 = rshift(r, m, -1, r.in(1, 2 * ord + 2)), sh = sh0, order(n, ord);
    k.d << who << " F=" << dims(F) << " order=" << ord << " shift=" << show(sh0);
    k.in("pmat", F).inout("shift", sh).out("appbas", P);
    k.run([&]() { f(P, F, ord, sh); });
    MinBasis B = o_approx(F, order, sh0, r.chance(10) && m * ord < 60);
    if (B.codim == 0) k.nontriv = false;
    chk_approx(k, who, P, F, order, sh0, sh, want, B);
    if (B.P.NumRows()) { PM c = o_popov(B.P, sh0); k.check(same(o_popov(P, sh0), c), S(who << ": different canonical basis")); }
}
OP("C06", mbasis_plain, 100, 4000, 20000) { uniform(k, "mbasis_plain", mbasis_plain, 3, k.sz(5, 8, 14), k.sz(12, 30, 50)); }
OP("C06", mbasis_rescomp, 100, 4000, 20000) { uniform(k, "mbasis_rescomp", mbasis_rescomp, 3, k.sz(5, 8, 14), k.sz(12, 40, 60)); }
OP("C06", mbasis_resupdate, 100, 4000, 20000) { uniform(k, "mbasis_resupdate", mbasis_resupdate, 3, k.sz(5, 8, 14), k.sz(12, 40, 60)); }
OP("C06", mbasis_sel, 80, 3000, 12000) { uniform(k, "mbasis", [](Mat<zz_pX> &a, const Mat<zz_pX> &p, const long o, VecLong &s) { mbasis(a, p, o, s); }, 3, k.sz(5, 9, 14), k.sz(12, 40, 60)); }
OP("C06", popov_mbasis, 80, 3000, 12000) { uniform(k, "popov_mbasis", popov_mbasis, 4, k.sz(5, 8, 14), k.sz(12, 40, 60)); }
OP("C06", pmbasis, 80, 3000, 12000) { uniform(k, "pmbasis", pmbasis, 3, k.sz(4, 7, 12), k.sz(80, 120, 200)); }
OP("C06", popov_pmbasis, 60, 2000, 8000) { uniform(k, "popov_pmbasis", popov_pmbasis, 4, k.sz(4, 7, 12), k.sz(80, 120, 200)); }

// general orders
static VL rorder(Ctx &k, long n, long mo)
{
    Rng &r = k.rng; VL o(n); int w = r.below(4);
    for (auto &x : o) x = w == 0 ? r.in(1, mo) : w == 1 ? (r.chance(20) ? mo : r.in(1, 3)) : w == 2 ? r.in(1, 4) : r.in(std::max(1L, mo - 1), mo);
    return o;
}
OP("C06", appbas_iterative, 150, 6000, 25000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(5, 7, 12));
    long mo = r.in(1, k.sz(12, 25, 50)); VL order = rorder(k, n, mo);
    PM F = gen_bas(k, m, n, r.chance(80) ? mo : r.in(0, mo + 4)), P; VL sh0 = rshift(r, m, -1, r.in(1, 2 * mo)), sh = sh0; bool ow = r.chance(50), pop = r.chance(50);
    k.d << "F=" << dims(F) << " order=" << show(order) << " shift=" << show(sh0) << " order_wise=" << ow << " popov=" << pop;
    k.in("pmat", F).in("order", order).inout("shift", sh).out("appbas", P);
    if (pop) k.run([&]() { popov_appbas_iterative(P, F, order, sh, ow); });
    else k.run([&]() { appbas_iterative(P, F, order, sh, ow); });
    MinBasis B = o_approx(F, order, sh0, r.chance(20));
    if (B.codim == 0) k.nontriv = false;
    chk_approx(k, pop ? "popov_appbas_iterative" : "appbas_iterative", P, F, order, sh0, sh, pop ? 4 : 3, B);
    if (B.P.NumRows()) k.check(same(o_popov(P, sh0), o_popov(B.P, sh0)), "different canonical basis");
}
OP("C06", approximant_basis, 150, 4000, 16000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(5, 7, 12));
    long mo = r.in(1, k.sz(12, 25, 50)); bool uni = r.chance(50);
    VL order = uni ? VL(n, mo) : rorder(k, n, mo), rd;
    PM F = gen_bas(k, m, n, r.chance(80) ? mo : r.in(0, mo + 4)), P; VL sh0 = rshift(r, m, -1, r.in(1, 2 * mo));
    int fm = r.in(1, 4); bool single = uni && r.chance(50);
    k.d << "F=" << dims(F) << " order=" << show(order) << " shift=" << show(sh0) << " form=" << fm << " single=" << single;
    k.in("pmat", F).in("order", order).in("shift", sh0).out("rdeg", rd).out("appbas", P);
    if (single) k.run([&]() { approximant_basis(P, rd, F, mo, sh0, (PolMatForm)fm); });
    else k.run([&]() { approximant_basis(P, rd, F, order, sh0, (PolMatForm)fm); });
    MinBasis B = o_approx(F, order, sh0, false);
    chk_approx(k, "approximant_basis", P, F, order, sh0, rd, fm, B);
}
OP("C06", mbasis1, 150, 6000, 30000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(6, 12, 20));
    CM F = r.chance(40) ? rcm(r, m, n) : rcm_rank(r, m, n, r.in(0, std::min(m, n)));
    if (r.chance(20)) for (long i = 0; i < m; i++) if (r.chance(40)) for (long j = 0; j < n; j++) clear(F[i][j]);
    CM K; VL sh0 = rshift(r, m), piv; bool pop = r.chance(50);
    k.d << "F=" << m << "x" << n << " shift=" << show(sh0) << " popov=" << pop;
    k.in("pmat", F).in("shift", sh0).out("kerbas", K).out("piv", piv);
    if (pop) k.run([&]() { piv = popov_mbasis1(K, F, sh0); }); else k.run([&]() { piv = mbasis1(K, F, sh0); });
    PM Fp = rzero(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) SetCoeff(Fp[i][j], 0, F[i][j]);
    MinBasis B = o_approx(Fp, VL(n, 1), sh0, true);
    long rho = rrank(F);
    k.check(K.NumRows() == m - rho && (m == rho || K.NumCols() == m), S("kernel is " << K.NumRows() << "x" << K.NumCols()));
    k.check((long)piv.size() == m, "number of pivot degrees");
    PM P = rzero(m, m); long t = 0;
    for (long i = 0; i < m; i++) { k.check(piv[i] == 0 || piv[i] == 1, "pivot degree not 0 or 1"); if (piv[i] == 1) { SetCoeff(P[i][i], 1); continue; } k.check(t < m - rho, "too many pivots"); for (long j = 0; j < m; j++) SetCoeff(P[i][j], 0, K[t][j]); t++; }
    k.check(t == m - rho, "too few pivots");
    chk_approx(k, pop ? "popov_mbasis1" : "mbasis1", P, Fp, VL(n, 1), sh0, o_rdeg(P, sh0), pop ? 4 : 3, B);
}
OP("C06", basis_2x1, 150, 8000, 40000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long ord = r.chance(20) ? r.in(1, 4) : r.in(1, k.sz(40, 150, 500)), th = r.chance(40) ? 32 : r.in(1, 60);
    PM F = gen_bas(k, 2, 1, r.chance(70) ? ord : r.in(0, ord + 5)), P; P.SetDims(2, 2); VL sh0 = rshift(r, 2, -1, r.in(1, 2 * ord)); long s0 = sh0[0], s1 = sh0[1]; bool it = r.chance(40);
    k.d << "order=" << ord << " shift=" << show(sh0) << " iterative=" << it << " threshold=" << th;
    zz_pX p00, p01, p10, p11; const zz_pX &f0 = F[0][0], &f1 = F[1][0];
    k.in("f0", f0).in("f1", f1).inout("s0", s0).inout("s1", s1).out("p00", p00).out("p01", p01).out("p10", p10).out("p11", p11);
    if (it) k.run([&]() { appbas_iterative_2x1(p00, p01, p10, p11, f0, f1, ord, s0, s1); });
    else k.run([&]() { pmbasis_2x1(p00, p01, p10, p11, f0, f1, ord, s0, s1, th); });
    P[0][0] = p00; P[0][1] = p01; P[1][0] = p10; P[1][1] = p11;
    MinBasis B = o_approx(F, VL(1, ord), sh0, false); VL o; o.push_back(s0); o.push_back(s1);
    chk_approx(k, it ? "appbas_iterative_2x1" : "pmbasis_2x1", P, F, VL(1, ord), sh0, o, 3, B);
}
// large dimensions and orders: the products and middle products inside take their fast paths
OP("C06", pmbasis_large, 2, 120, 500)
{
    setmod(k, K_ALL); Rng &r = k.rng; bool wide = r.chance(50);
    long m = wide ? r.in(8, 24) : r.in(2, 6), n = wide ? r.in(1, 12) : r.in(1, 3), ord = std::min(r.in(20, 500), 1200 / n);
    PM F = gen_bas(k, m, n, ord), P; VL sh0 = rshift(r, m, -1, r.in(1, 60)), sh = sh0, order(n, ord); bool pop = r.chance(25);
    k.d << "F=" << dims(F) << " order=" << ord << " shift=" << show(sh0) << " popov=" << pop;
    k.in("pmat", F).inout("shift", sh).out("appbas", P);
    k.run([&]() { if (pop) popov_pmbasis(P, F, ord, sh); else pmbasis(P, F, ord, sh); });
    MinBasis B = o_approx(F, order, sh0, false);
    chk_approx(k, "pmbasis (large)", P, F, order, sh0, sh, pop ? 4 : 3, B);
}
