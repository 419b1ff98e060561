// C22: verifiers of approximant, interpolant and kernel bases, shown correct bases and small corruptions of them
#include "bases.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
#include <iostream>
PML_CLIENT
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static PolMatForm pf(long f) { return f == 0 ? NONE : f == 1 ? REDUCED : f == 2 ? WEAK_POPOV : f == 3 ? ORD_WEAK_POPOV : POPOV; }
static void addrow(PM &P, long i, long j, const zz_pX &f) { for (long c = 0; c < P.NumCols(); c++) P[i][c] += f * P[j][c]; }
// equivalent basis of another form: rows scaled, permuted, combined without raising shifted degrees, or by any unimodular matrix
static void vary(Rng &r, PM &P, const VL &sh)
{
    long m = P.NumRows(); if (m == 0) return; int w = r.below(6);
    VL rd = o_rdeg(P, sh);
    if (w == 1) for (long i = 0; i < m; i++) { zz_p c = rnz(r); for (long j = 0; j < P.NumCols(); j++) P[i][j] *= c; }
    if (w == 2 || w == 4) for (long q = r.in(1, 3); q > 0; q--) { long i = r.below(m), j = r.below(m); if (i != j) std::swap(P[i], P[j]); rd = o_rdeg(P, sh); }
    if (w == 3 || w == 4) for (long q = r.in(1, 4); q > 0; q--) { long i = r.below(m), j = r.below(m); if (i != j && rd[j] <= rd[i]) { long e = rd[i] - rd[j] + (r.chance(50) ? 1 : 0); addrow(P, i, j, rpolyS(r, std::min(e, 8L))); rd = o_rdeg(P, sh); } }
    if (w == 5) { long i = r.below(m), j = r.below(m); if (i != j) addrow(P, i, j, rpolyS(r, 4)); }
}
// break a basis in one small way; d = a length of interest for perturbed coefficients
static int corrupt(Rng &r, PM &P, long d)
{
    long m = P.NumRows(), n = P.NumCols(); if (m == 0 || n == 0) return -1; int w = r.below(9); long i = r.below(m), j = r.below(n);
    switch (w) {
    case 0: SetCoeff(P[i][j], r.in(0, std::max(0L, d)), rc(r)); break;
    case 1: { zz_pX x; SetX(x); for (long c = 0; c < n; c++) P[i][c] *= x; break; }
    case 2: { zz_pX x; SetX(x); x -= rc(r); for (long c = 0; c < n; c++) P[i][c] *= x; break; }
    case 3: { PM Q; Q.SetDims(m - 1, n); for (long a = 0, b = 0; a < m; a++) if (a != i) Q[b++] = P[a]; P = Q; break; }
    case 4: { PM Q; Q.SetDims(m + 1, n); for (long a = 0; a < m; a++) Q[a] = P[a]; if (r.chance(50)) Q[m] = P[i]; P = Q; break; }
    case 5: for (long c = 0; c < n; c++) clear(P[i][c]); break;
    case 6: { long t = r.below(m); if (t != i) P[i] = P[t]; else clear(P[i][j]); break; }
    case 7: { long t = r.below(m); zz_pX f = rpolyS(r, 3); if (t != i) { for (long c = 0; c < n; c++) P[i][c] = P[i][c] * f + P[t][c]; } break; }
    default: { PM Q; Q.SetDims(m, n + 1); for (long a = 0; a < m; a++) for (long b = 0; b < n; b++) Q[a][b] = P[a][b]; P = Q; }
    }
    return w;
}
static long degdet(const PM &P, const VL &sh) { VL rd = o_rdeg(P, sh); long s = 0; for (size_t i = 0; i < sh.size(); i++) s += rd[i] - sh[i]; return s; }
OP("C22", verify_approximant, 150, 5000, 20000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(1, k.sz(4, 5, 7)), n = r.in(1, m), d = r.in(1, k.sz(6, 9, 14)); PM F = gen_bas(k, m, n, r.in(1, d + 2)); bool uni = r.chance(60); VL order(n, d); if (!uni) for (long j = 0; j < n; j++) order[j] = r.in(1, d); VL sh = rshift(r, m, -1, d + 1);
    VL o2 = order; if (r.chance(15)) { long j = r.below(n); o2[j] += r.chance(50) ? 1 : (o2[j] > 1 ? -1 : 0); if (uni) for (long q = 0; q < n; q++) o2[q] = o2[j]; }   // basis computed for another order
    VL s2 = r.chance(10) ? rshift(r, m, -1, d + 1) : sh;
    MinBasis B = o_approx(F, o2, s2, true), W = o2 == order ? B : o_approx(F, order, sh, false); PM P = o_popov(B.P, s2); vary(r, P, s2); int cw = -1; if (r.chance(45)) cw = corrupt(r, P, std::max(0L, rdeg(P))); long want = r.in(1, 4);
    bool ok = P.NumRows() == m && P.NumCols() == m; long f = ok ? o_form(P, sh) : 0; long cod = 0; for (long x : W.delta) cod += x; if (ok) ok = f >= want && in_approx(P, F, order) && degdet(P, sh) == cod;
    k.d << "F=" << dims(F) << " order=" << show(order) << " shift=" << show(sh) << " candidate " << dims(P) << " corruption " << cw << " form asked " << want << ", has " << f; k.tag(S("c" << cw << (ok ? "y" : "n"))); k.tag(S("f" << want));
    bool got = false; k.in("appbas", P).in("pmat", F); k.run([&]() { got = uni && r.chance(50) ? is_approximant_basis(P, F, d, sh, pf(want), true) : is_approximant_basis(P, F, order, sh, pf(want), true); });
    k.check(got == ok, S("is_approximant_basis says " << got << ", the candidate is " << (ok ? "" : "not ") << "a basis of that form"));
}
OP("C22", verify_interpolant, 150, 4000, 16000)
{
    setmod(k, K_LARGEONLY | K_MID); Rng &r = k.rng; long m = r.in(1, k.sz(4, 5, 7)), n = r.in(1, m), N = r.in(1, k.sz(5, 8, 12)); int w = r.below(4); CV pts; pts.SetLength(N); zz_p q; VL sh = rshift(r, m, -1, N + 1), s2 = r.chance(10) ? rshift(r, m, -1, N + 1) : sh;
    if (w >= 2) { element_of_order(q, 2 * N + 2 * m + 6); if (q == 0) throw Skip{}; zz_p t = to_zz_p(1), qq = q * q; for (long i = 0; i < N; i++) { pts[i] = t; t *= qq; } } else { long s = r.below(1000); for (long i = 0; i < N; i++) pts[i] = to_zz_p(s + (i * i + i) / 2 * 3 + i); }
    PM F = gen_bas(k, m, n, r.in(1, w == 3 ? N : N + 1)); Vec<CM> ev; ev.SetLength(N); for (long i = 0; i < N; i++) { ev[i] = reval(F, pts[i]); if (w % 2 == 0 && r.chance(20)) ev[i] = rcm_rank(r, m, n, r.in(0, n)); }
    long drop = r.chance(12) && N > 1 ? 1 : 0; CV p2; p2.SetLength(N - drop); Vec<CM> e2; e2.SetLength(N - drop); for (long i = 0; i < N - drop; i++) { p2[i] = pts[i]; e2[i] = ev[i]; }
    MinBasis B = o_interp(e2, p2, s2, true), W = drop ? o_interp(ev, pts, sh, false) : B; PM P = o_popov(B.P, s2); vary(r, P, s2); int cw = -1; if (r.chance(45)) cw = corrupt(r, P, std::max(0L, rdeg(P))); long want = r.in(1, 4);
    if (P.NumRows() == m && P.NumCols() != m && cw == 8) { P = o_popov(B.P, s2); cw = -1; }   // extra column: dimensions for the products would not match
    bool ok = P.NumRows() == m && P.NumCols() == m; long f = ok ? o_form(P, sh) : 0; long cod = 0; for (long x : W.delta) cod += x; if (ok) ok = f >= want && degdet(P, sh) == cod; for (long i = 0; i < N && ok; i++) { CM z = rcmul(reval(P, pts[i]), ev[i]); if (!IsZero(z)) ok = false; }
    if (w >= 2 && rdeg(P) >= N) k.tag("degN");
    k.d << "F=" << dims(F) << " N=" << N << " variant " << w << " shift=" << show(sh) << " candidate " << dims(P) << " deg " << rdeg(P) << " corruption " << cw << " drop " << drop << " form asked " << want << ", has " << f; k.tag(S("v" << w << "c" << cw << (ok ? "y" : "n"))); k.tag(S("f" << want));
    bool got = false; k.in("intbas", P).in("pts", pts).in("evals", ev).in("pmat", F); k.run([&]() { switch (w) { case 0: got = is_interpolant_basis(P, ev, pts, sh, pf(want), false); break; case 1: got = is_interpolant_basis(P, F, pts, sh, pf(want), false); break; case 2: got = is_interpolant_basis_geometric(P, ev, q, N, sh, pf(want), false); break; default: got = is_interpolant_basis_geometric(P, F, q, N, sh, pf(want), false); } });
    k.check(got == ok, S("is_interpolant_basis says " << got << ", the candidate is " << (ok ? "" : "not ") << "a basis of that form"));
}
OP("C22", verify_kernel, 100, 3000, 12000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(2, k.sz(4, 5, 7)), n = r.in(1, m - 1), len = r.in(1, 4); PM F = r.chance(60) ? rmat(r, m, n, len) : rmatS(r, m, n, len); if (r.chance(30)) { PM a = rmat(r, m, 1, 2), b = rmat(r, 1, n, 2); F = rmul(a, b); } VL sh = rshift(r, m, -1, 6), s2 = r.chance(10) ? rshift(r, m, -1, 6) : sh;
    long amp = *std::max_element(s2.begin(), s2.end()) - *std::min_element(s2.begin(), s2.end()); MinBasis B = o_approx(F, VL(n, (n + 1) * std::max(0L, rdeg(F)) + amp + 1), s2, true); PM Pp = o_popov(B.P, s2), z = rmul(Pp, F), P; VL rows; for (long i = 0; i < m; i++) { bool zr = true; for (long j = 0; j < n; j++) if (z[i][j] != 0) zr = false; if (zr) rows.push_back(i); } P.SetDims(rows.size(), m); for (size_t i = 0; i < rows.size(); i++) P[i] = Pp[rows[i]]; if (rows.empty()) { k.nontriv = false; return; }
    vary(r, P, s2); int cw = -1; if (r.chance(45)) cw = corrupt(r, P, std::max(0L, rdeg(P))); if (P.NumRows() == 0) return; long want = r.in(1, 4); bool rnd = r.chance(50); bool dm = P.NumCols() == m; long f = dm ? o_form(P, sh) : 0; bool in = dm && f >= want && rIsZero(rmul(P, F)); bool full = in && cw == -1;
    k.d << "F=" << dims(F) << " shift=" << show(sh) << " candidate " << dims(P) << " corruption " << cw << " form asked " << want << ", has " << f << " randomized " << rnd; k.tag(S("c" << cw << (in ? "y" : "n") << (full ? "b" : "")));
    bool got = false; PM P1 = P; k.in("pmat", F); { Quiet qt; k.run([&]() { P1 = P; got = is_kernel_basis(P1, F, sh, pf(want), rnd); }); }
    k.check(same(P, P1), "is_kernel_basis changed its candidate"); if (full) k.check(got, "is_kernel_basis rejects a kernel basis of that form"); if (!in) k.check(!got, S("is_kernel_basis accepts a matrix which is not a set of kernel rows of that form"));
}
