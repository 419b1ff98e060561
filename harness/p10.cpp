// C10: truncated inverses and power-series solutions
#include "common.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT

// square matrix with invertible constant term and varied degree profile
PM gen_inv0(Ctx &k, long n, long len)
{
    Rng &r = k.rng; PM F; int w = r.below(6); k.tag(S("A" << w));
    switch (w) {
    case 0: F = rmat(r, n, n, len); break;
    case 1: F = rmatS(r, n, n, len); break;
    case 2: F = rzero(n, n); break;                                    // constant
    case 3: { F = rmat(r, n, n, len); for (long i = 0; i < n; i++) { long e = r.in(0, len); for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], e); } break; }
    case 4: { F = rmat(r, n, n, len); for (long j = 0; j < n; j++) { long e = r.in(0, len); for (long i = 0; i < n; i++) trunc(F[i][j], F[i][j], e); } break; }
    default: F = rzero(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (r.chance(40)) SetCoeff(F[i][j], r.in(0, len - 1), rc(r)); break;
    }
    CM c = r.chance(20) ? ident_mat_zz_p(n) : rcm_inv(r, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(F[i][j], 0, c[i][j]);
    return F;
}
// A*u == b mod x^prec, exact up to a size, then one-sided randomised
static void chk_series(Ctx &k, const char *who, const PM &A, const PM &b, const PM &u, long prec)
{
    k.check(u.NumRows() == A.NumCols() && u.NumCols() == b.NumCols(), S(who << ": result is " << dims(u)));
    k.check(normalized(u), S(who << ": unnormalized entries"));
    k.check(rdeg(u) < prec, S(who << ": degree " << rdeg(u) << " not below the precision " << prec));
    PM At = rtrunc(A, prec), bt = rtrunc(b, prec);
    bool ok;
    if (A.NumRows() * A.NumRows() * u.NumCols() * prec < 60000) ok = same(rtrunc(rmul(At, u), prec), bt);
    else {
        CV w = rcv(k.rng, u.NumCols()); PM W; W.SetDims(u.NumCols(), 1); for (long i = 0; i < u.NumCols(); i++) conv(W[i][0], w[i]);
        ok = same(rtrunc(rmul(At, rmul(u, W)), prec), rtrunc(rmul(bt, W), prec));
    }
    k.check(ok, S(who << ": A*u differs from b modulo x^" << prec));
}
static long rprec(Ctx &k, long big)
{
    Rng &r = k.rng; int w = r.below(10);
    if (w == 0) return 1; if (w == 1) return 2; if (w == 2) return 3;
    if (w < 5) { long e = 1L << r.in(1, 9); return std::max(1L, std::min(big, e + r.in(-1, 1))); }
    return r.in(1, big);
}
static void inv_case(Ctx &k, const char *who, int kinds, long fld, void (*f)(PM &, const PM &, long, long), bool usethr, bool fft = false)
{
    setmod(k, kinds); Rng &r = k.rng; long n = r.chance(10) ? 1 : r.in(1, k.sz(4, 7, 12));
    long d = rprec(k, k.sz(30, n > 4 ? 130 : 300, 600)); if (fld && zz_p::modulus() < fld * d) throw Skip();
    if (fft && !is_FFT_ready(NextPowerOfTwo(4 * d + 64))) throw Skip();
    long thr = !usethr || r.chance(40) ? -1 : r.chance(30) ? r.in(1, 4) : r.in(1, 80);
    PM A = gen_inv0(k, n, r.chance(10) ? 2 * d + 3 : r.in(1, std::max(1L, d))), X; bool alias = r.chance(25);
    k.d << "A=" << dims(A) << " d=" << d << " thresh=" << thr << " alias=" << alias;
    k.tag(S("pr" << NextPowerOfTwo(d))); if (alias) k.tag("alias");
    PM A0 = A;
    if (alias) { k.inout("pmat", A); k.run([&]() { f(A, A, d, thr); }); X = A; }
    else { k.in("pmat", A).out("imat", X); k.run([&]() { f(X, A, d, thr); }); k.check(same(A, A0), S(who << ": input modified")); }
    chk_series(k, who, A0, rident(n), X, d);
}
OP("C10", inv_trunc, 100, 2500, 8000) { inv_case(k, "inv_trunc", K_ALL, 0, [](PM &x, const PM &a, long d, long) { if (&x != &a && d % 3 == 0) x = inv_trunc(a, d); else inv_trunc(x, a, d); }, false); }
OP("C10", plain_inv_trunc, 60, 800, 3000) { inv_case(k, "plain_inv_trunc", K_ALL, 0, [](PM &x, const PM &a, long d, long) { plain_inv_trunc(x, a, d); }, false); }
OP("C10", newton_FFT, 80, 1800, 6000) { inv_case(k, "newton_inv_trunc_FFT", K_FFT | K_UFFT, 0, [](PM &x, const PM &a, long d, long t) { newton_inv_trunc_FFT(x, a, d, t); }, true, true); }
OP("C10", newton_mp, 80, 1800, 6000) { inv_case(k, "newton_inv_trunc_middle_product", K_ALL, 0, [](PM &x, const PM &a, long d, long t) { newton_inv_trunc_middle_product(x, a, d, t); }, true); }
OP("C10", newton_geom, 80, 1800, 6000) { inv_case(k, "newton_inv_trunc_geometric", K_NOTINY, 200, [](PM &x, const PM &a, long d, long t) { newton_inv_trunc_geometric(x, a, d, t); }, true); }
OP("C10", high_order_lift, 40, 700, 2500)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, k.sz(3, 5, 8)), d = r.in(1, k.sz(6, 14, 40));
    PM A = rmat(r, n, n, d + 1); CM c = rcm_inv(r, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { SetCoeff(A[i][j], 0, c[i][j]); }
    if (rdeg(A) < d) throw Skip();
    long i = r.in(2 * d - 1, 4 * d + 3), N = 2 * i - d;    // slice of degrees N-(2d-1)..N-1
    k.d << "A=" << dims(A) << " i=" << i;
    // own expansion of the inverse
    PM inv; { Vec<CM> x; x.SetLength(std::max(N, i)); CM x0 = NTL::inv(rcoeff(A, 0)); x[0] = x0; for (long t = 1; t < x.length(); t++) { CM s; s.SetDims(n, n); for (long j = 1; j <= std::min(t, d); j++) s += rcmul(rcoeff(A, j), x[t - j]); CM y = rcmul(x0, s); x[t].SetDims(n, n); for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) x[t][a][b] = -y[a][b]; }
        inv = rzero(n, n); for (long t = 0; t < x.length(); t++) for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) SetCoeff(inv[a][b], t, x[t][a][b]); }
    PM src = rslice(inv, i - (2 * d - 1), 2 * d - 1), want = rslice(inv, N - (2 * d - 1), 2 * d - 1), low = rtrunc(inv, d), nx;
    auto ma = get_lmultiplier(A, d - 1); auto mi = get_lmultiplier(low, d - 1); bool alias = r.chance(40);
    if (alias) { nx = src; k.inout("src", nx); k.run([&]() { high_order_lift_inverse_odd(nx, nx, ma, mi, d); }); }
    else { k.in("src", src).out("next", nx); k.run([&]() { high_order_lift_inverse_odd(nx, src, ma, mi, d); }); }
    k.check(same(nx, want), "high_order_lift_inverse_odd: wrong slice of the inverse");
}
static void solve_case(Ctx &k, const char *who, int f)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(10) ? 1 : r.in(1, k.sz(4, 6, 10)), len = r.chance(15) ? 1 : r.in(1, k.sz(8, 25, 60));
    PM A = gen_inv0(k, n, len), b, u; long dA = rdeg(A), prec = rprec(k, k.sz(40, 180, 500)), s = r.chance(40) ? 1 : r.chance(40) ? n : r.in(1, 2 * n);
    long blen = r.in(0, r.chance(30) ? 2 * prec : len); if (f == 3) blen = r.in(0, dA);
    b = r.chance(20) ? rmatS(r, n, s, blen) : rmat(r, n, s, blen); long thr = f == 0 && r.chance(60) ? r.in(1, 70) : -1;
    if (f == 3 && rdeg(b) >= dA) throw Skip();
    int al = r.chance(20) ? 1 : (r.chance(20) && s == n) ? 2 : 0;
    k.d << "A=" << dims(A) << " b=" << dims(b) << " prec=" << prec << " thresh=" << thr << " alias=" << al; if (al) k.tag(S("alias" << al));
    k.tag(S("pr" << NextPowerOfTwo(prec))); PM A0 = A, b0 = b;
    auto call = [&](PM &x, const PM &a, const PM &bb) {
        switch (f) {
        case 0: if (thr == -1 && prec % 2) solve_series_low_precision(x, a, bb, prec); else if (prec % 3) solve_series_low_precision(x, a, bb, prec, thr); else x = solve_series_low_precision(a, bb, prec, thr); break;
        case 1: if (al == 0 && prec % 2) x = solve_series_high_precision(a, bb, prec); else solve_series_high_precision(x, a, bb, prec); break;
        case 2: if (al == 0 && prec % 2) x = solve_series(a, bb, prec); else solve_series(x, a, bb, prec); break;
        default: if (al == 0 && prec % 2) x = solve_series_high_order_lifting(a, bb, prec); else solve_series_high_order_lifting(x, a, bb, prec);
        }
    };
    if (al == 1) { k.in("A", A).inout("b", b); k.run([&]() { call(b, A, b); }); u = b; }
    else if (al == 2) { k.in("b", b).inout("A", A); k.run([&]() { call(A, A, b); }); u = A; }
    else { k.in("A", A).in("b", b).out("u", u); k.run([&]() { call(u, A, b); }); }
    chk_series(k, who, A0, b0, u, prec);
}
OP("C10", solve_low, 80, 1600, 6000) { solve_case(k, "solve_series_low_precision", 0); }
OP("C10", solve_high, 80, 1600, 6000) { solve_case(k, "solve_series_high_precision", 1); }
OP("C10", solve_series, 80, 1600, 6000) { solve_case(k, "solve_series", 2); }
OP("C10", solve_hol, 80, 1600, 6000) { solve_case(k, "solve_series_high_order_lifting", 3); }
OP("C10", solve_series_vec, 50, 800, 3000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, k.sz(4, 6, 10)); PM A = gen_inv0(k, n, r.in(1, 20)); long prec = rprec(k, k.sz(40, 120, 300));
    PV b = rvec(r, n, r.in(0, 2 * prec)), u; bool al = r.chance(30); PV b0 = b; k.d << "A=" << dims(A) << " prec=" << prec << " alias=" << al;
    if (al) { k.in("A", A).inout("b", b); k.run([&]() { solve_series(b, A, b, prec); }); u = b; }
    else { k.in("A", A).in("b", b).out("u", u); k.run([&]() { if (prec % 2) u = solve_series(A, b, prec); else solve_series(u, A, b, prec); }); }
    k.check(u.length() == n, "solve_series: length"); PM U = rzero(n, 1), B = rzero(n, 1); for (long i = 0; i < n; i++) { U[i][0] = u[i]; B[i][0] = b0[i]; }
    chk_series(k, "solve_series (vector)", A, B, U, prec);
}
