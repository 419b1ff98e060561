// C07: interpolant bases
#include "bases.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
PML_CLIENT

static CV dpoints(Rng &r, long N)   // distinct points, sometimes including 0
{
    CV v; v.SetLength(N); long p = zz_p::modulus();
    if (p < 4 * N) { VL a(p); for (long i = 0; i < p; i++) a[i] = i; for (long i = p - 1; i > 0; i--) std::swap(a[i], a[r.below(i + 1)]); for (long i = 0; i < N; i++) v[i] = to_zz_p(a[i]); return v; }
    if (r.chance(20)) { long s = r.chance(50) ? 0 : r.below(p); for (long i = 0; i < N; i++) v[i] = to_zz_p((s + i) % p); return v; }
    std::vector<long> seen; for (long i = 0; i < N; i++) { long c; do c = (i == 0 && r.chance(20)) ? 0 : r.below(p); while (std::find(seen.begin(), seen.end(), c) != seen.end()); seen.push_back(c); v[i] = to_zz_p(c); }
    return v;
}
static Vec<CM> evals_of(const PM &F, const CV &pts) { Vec<CM> e; e.SetLength(pts.length()); for (long i = 0; i < pts.length(); i++) e[i] = reval(F, pts[i]); return e; }
static void chk_interp(Ctx &k, const char *who, const PM &P, const Vec<CM> &ev, const CV &pts, const VL &sh0, const VL &rd, long want, const MinBasis &B)
{
    chk_form(k, who, P, sh0, rd, want, B);
    for (long i = 0; i < pts.length(); i++) { CM q = rcmul(reval(P, pts[i]), ev[i]); for (long a = 0; a < q.NumRows(); a++) for (long b = 0; b < q.NumCols(); b++) k.check(IsZero(q[a][b]), S(who << ": basis times matrix does not vanish at point " << i)); }
    if (B.P.NumRows()) k.check(same(o_popov(P, sh0), o_popov(B.P, sh0)), S(who << ": different canonical basis"));
}
static void dimsmn(Ctx &k, long &m, long &n, long mx)
{
    Rng &r = k.rng; int w = r.below(6);
    if (w == 0) { m = r.in(1, mx); n = 1; } else if (w == 1) { n = r.in(1, mx / 2); m = 2 * n; } else if (w == 2) { m = r.in(1, mx); n = r.in(1, m); } else if (w == 3) { m = r.in(1, 3); n = r.in(1, mx); } else if (w == 4) { m = r.in(1, mx); n = std::max(1L, m - 1); } else { m = r.in(1, mx); n = r.in(1, mx); }
}
// evaluations: from a polynomial matrix, or arbitrary, or rank deficient / zero / repeated
static Vec<CM> gen_evals(Ctx &k, long m, long n, const CV &pts)
{
    Rng &r = k.rng; long N = pts.length(); int w = r.below(4); Vec<CM> ev; ev.SetLength(N);
    if (w == 0) return evals_of(gen_bas(k, m, n, r.in(0, N)), pts);
    CM rep = rcm(r, m, n);
    for (long i = 0; i < N; i++) ev[i] = w == 1 ? rcm(r, m, n) : w == 2 ? rcm_rank(r, m, n, r.in(0, std::min(m, n))) : r.chance(50) ? rep : rcm_rank(r, m, n, r.in(0, std::min(m, n)));
    return ev;
}
OP("C07", int_mbasis, 250, 10000, 40000)
{
    long p = setmod(k, K_ALL); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(5, 8, 14));
    if (r.chance(5)) { m = 21 + r.below(3); n = m - 1; }   // residual-update region of the selection
    long N = std::min(p, r.chance(30) ? r.in(1, 7) : r.in(1, m > 15 ? 12 : k.sz(12, 30, 50)));
    CV pts = dpoints(r, N); Vec<CM> ev = gen_evals(k, m, n, pts), e0 = ev; int w = r.below(5);
    long off = (w < 3 && N > 1 && r.chance(40)) ? r.in(0, N - 1) : 0, ord = (w < 3 && r.chance(40)) ? r.in(1, N - off) : N - off;
    if (w >= 3) { off = 0; ord = N; }
    VL sh0 = rshift(r, m, -1, r.in(1, 2 * N)), sh = sh0; PM P;
    k.d << "alg=" << w << " " << m << "x" << n << " N=" << N << " offset=" << off << " order=" << ord << " shift=" << show(sh0);
    k.in("pts", pts).inout("shift", sh).out("intbas", P); if (w == 0) k.in("evals", ev); else k.inout("evals", ev);
    k.run([&]() { switch (w) {
        case 0: mbasis_rescomp(P, ev, pts, sh, off, ord); break;
        case 1: mbasis_resupdate(P, ev, pts, sh, off, ord); break;
        case 2: mbasis(P, ev, pts, sh, off, ord); break;
        case 3: mbasis(P, ev, pts, sh); break;
        default: popov_mbasis(P, ev, pts, sh); } });
    CV q; q.SetLength(ord); Vec<CM> eq; eq.SetLength(ord); for (long i = 0; i < ord; i++) { q[i] = pts[off + i]; eq[i] = e0[off + i]; }
    MinBasis B = o_interp(eq, q, sh0, r.chance(10)); if (!B.codim) k.nontriv = false;
    k.tag(S("alg" << w));
    chk_interp(k, "mbasis (interpolant)", P, eq, q, sh0, sh, w == 4 ? 4 : 3, B);
}
OP("C07", int_pmbasis, 100, 4000, 16000)
{
    long p = setmod(k, K_ALL); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(4, 6, 12));
    long N = std::min(p, r.in(1, k.sz(80, 130, 300))); CV pts = dpoints(r, N); int w = r.below(3);
    VL sh0 = rshift(r, m, -1, r.in(1, 2 * N)), sh = sh0; PM P, F; Vec<CM> ev; long off = 0, ord = N;
    if (w == 2) { ev = gen_evals(k, m, n, pts); if (N > 1 && r.chance(40)) { off = r.in(0, N - 1); ord = r.in(1, N - off); } }
    else { F = gen_bas(k, m, n, r.chance(70) ? N : r.in(0, N + 20)); ev = evals_of(F, pts); }
    Vec<CM> e0 = ev;
    k.d << "alg=" << w << " " << m << "x" << n << " N=" << N << " offset=" << off << " order=" << ord << " shift=" << show(sh0) << " deg=" << rdeg(F);
    k.in("pts", pts).in("pmat", F).inout("shift", sh).out("intbas", P); if (w == 2) k.inout("evals", ev);
    k.run([&]() { switch (w) { case 0: pmbasis(P, F, pts, sh); break; case 1: popov_pmbasis(P, F, pts, sh); break; default: pmbasis(P, ev, pts, sh, off, ord); } });
    CV q; q.SetLength(ord); Vec<CM> eq; eq.SetLength(ord); for (long i = 0; i < ord; i++) { q[i] = pts[off + i]; eq[i] = e0[off + i]; }
    MinBasis B = o_interp(eq, q, sh0, false); if (!B.codim) k.nontriv = false;
    k.tag(S("alg" << w));
    chk_interp(k, "pmbasis (interpolant)", P, eq, q, sh0, sh, w == 1 ? 4 : 3, B);
}
OP("C07", int_pmbasis_geometric, 100, 4000, 16000)
{
    setmod(k, K_NOTINY); Rng &r = k.rng; long m, n; dimsmn(k, m, n, k.sz(4, 6, 12));
    long N = r.in(1, k.sz(80, 130, 300)); zz_p q; element_of_order(q, 2 * (2 * N + 10)); if (IsZero(q)) throw Skip{};
    bool mat = r.chance(50); zz_p q2 = q * q; CV pts; pts.SetLength(N); pts[0] = to_zz_p(1); if (!mat && r.chance(60)) pts[0] = rnz(r);
    for (long i = 1; i < N; i++) pts[i] = pts[i - 1] * q2;
    VL sh0 = rshift(r, m, -1, r.in(1, 2 * N)), sh = sh0; PM P, F; Vec<CM> ev; long off = 0, ord = N; CV got;
    if (mat) { F = gen_bas(k, m, n, r.in(0, N)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], N); ev = evals_of(F, pts); }
    else { ev = gen_evals(k, m, n, pts); if (N > 1 && r.chance(40)) { off = r.in(0, N - 1); ord = r.in(1, N - off); } }
    Vec<CM> e0 = ev;
    k.d << "matrix=" << mat << " " << m << "x" << n << " N=" << N << " offset=" << off << " order=" << ord << " shift=" << show(sh0) << " r=" << q;
    if (mat) { k.in("pmat", F).inout("shift", sh).out("intbas", P).out("pts", got); k.run([&]() { pmbasis_geometric(P, F, q, N, sh, got); }); k.check(same(got, pts), "reported points differ from the powers of r^2"); }
    else { k.in("pts", pts).inout("shift", sh).inout("evals", ev).out("intbas", P); k.run([&]() { pmbasis_geometric(P, ev, pts, q, sh, off, ord); }); }
    CV qq; qq.SetLength(ord); Vec<CM> eq; eq.SetLength(ord); for (long i = 0; i < ord; i++) { qq[i] = pts[off + i]; eq[i] = e0[off + i]; }
    MinBasis B = o_interp(eq, qq, sh0, false); if (!B.codim) k.nontriv = false;
    chk_interp(k, "pmbasis_geometric", P, eq, qq, sh0, sh, 3, B);
}
