// C09: generic 2n x n approximants, matrix Pade, sequences and matrix reconstruction
#include "bases.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_sequence.h"
#include "lzz_p_extra.h"
#include <iostream>
PML_CLIENT
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static PM blk(const PM &P, long i0, long j0, long m, long n) { PM Q; Q.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) Q[i][j] = P[i0 + i][j0 + j]; return Q; }
static bool divX(const PM &P) { for (long i = 0; i < P.NumRows(); i++) for (long j = 0; j < P.NumCols(); j++) if (coeff(P[i][j], 0) != 0) return false; return true; }
static PM minusXdI(const PM &P, long d) { PM Q = P; zz_pX x; SetCoeff(x, d); for (long i = 0; i < Q.NumRows(); i++) Q[i][i] -= x; return Q; }
// rows of P times F vanish modulo x^order; exact for small sizes, projected on random vectors for large ones
static bool vanish(Ctx &k, const PM &P, const PM &F, long order)
{
    if (P.NumRows() * P.NumCols() * F.NumCols() * order < 400000) { PM R = rmul(P, F); return rIsZero(rtrunc(R, order)); }
    for (int q = 0; q < 3; q++) { CM v = rcm(k.rng, F.NumCols(), 1); if (!rIsZero(rtrunc(rmul(P, rmul(F, v)), order))) return false; }
    return true;
}
// documented shape of the basis for order 2d / 2d+1; top: only the n top rows
static void chk_shape(Ctx &k, const char *who, const PM &P, long n, long order, bool top)
{
    long d = order / 2; k.check(P.NumRows() == (top ? n : 2 * n) && P.NumCols() == 2 * n, S(who << ": result is " << dims(P))); k.check(normalized(P), "unnormalized entries");
    PM a = blk(P, 0, 0, n, n), b = blk(P, 0, n, n, n), c, e; if (!top) { c = blk(P, n, 0, n, n); e = blk(P, n, n, n, n); }
    if (order % 2 == 0) {
        k.check(rdeg(minusXdI(a, d)) < d, S(who << ": leading block is not x^d I + lower, d=" << d)); k.check(rdeg(b) < d, S(who << ": top right block of degree " << rdeg(b)));
        if (!top) { k.check(divX(c) && rdeg(c) <= d, S(who << ": bottom left block is not x times degree d-1")); k.check(divX(minusXdI(e, d)) && rdeg(minusXdI(e, d)) < d, S(who << ": trailing block is not x^d I + x P11")); }
    } else {
        k.check(divX(minusXdI(a, d + 1)) && rdeg(minusXdI(a, d + 1)) <= d, S(who << ": leading block is not x^(d+1) I + x P00")); k.check(divX(b) && rdeg(b) <= d, S(who << ": top right block is not x P01"));
        if (!top) { k.check(rdeg(c) <= d, S(who << ": bottom left block of degree " << rdeg(c))); k.check(rdeg(minusXdI(e, d)) < d, S(who << ": trailing block is not x^d I + lower")); }
    }
}
static void gsize(Ctx &k, long &n, long &order)
{
    Rng &r = k.rng; n = r.chance(40) ? r.in(1, 3) : r.in(1, k.sz(4, 8, 16));
    order = r.chance(30) ? r.in(2, 8) : r.chance(35) ? (1L << r.in(4, 7)) + r.in(-2, 2) : r.in(2, k.sz(30, 120, 300)); if (k.tier == 0) order = std::min(order, 66L); if (n > 5) order = std::min(order, k.sz(20, 80, 200));
    k.tag(S("o" << (order % 2) << (order < 16 ? "s" : order < 34 ? "m" : order < 70 ? "l" : "xl"))); k.d << "n=" << n << " order=" << order;
}
OP("C09", basis_2n_n, 60, 1200, 3000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long n, order; gsize(k, n, order); PM F = rmat(r, 2 * n, n, r.chance(70) ? order : order + r.in(1, 5)), P; int w = r.below(4); k.d << " routine " << w; k.tag(S("w" << w));
    k.in("pmat", F).out("appbas", P); k.run([&]() { switch (w) { case 0: mbasis_generic_2n_n_rescomp(P, F, order); break; case 1: mbasis_generic_2n_n_resupdate(P, F, order); break; case 2: pmbasis_generic_2n_n(P, F, order); break; default: pmbasis_generic_2n_n_top_rows(P, F, order); } });
    const char *nm = w == 0 ? "mbasis_generic_2n_n_rescomp" : w == 1 ? "mbasis_generic_2n_n_resupdate" : w == 2 ? "pmbasis_generic_2n_n" : "pmbasis_generic_2n_n_top_rows"; chk_shape(k, nm, P, n, order, w == 3); k.check(vanish(k, P, F, order), S(nm << ": a row is not an approximant"));
}
OP("C09", pade, 60, 1200, 3000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long n, order; gsize(k, n, order); PM F = rmat(r, n, n, order), d1, d2, den; int w = r.below(5); k.d << " routine " << w; k.tag(S("w" << w)); Vec<CM> seq; if (w == 4) { seq.SetLength(order); for (long i = 0; i < order; i++) seq[i] = rcoeff(F, i); k.in("seq", seq); }
    k.in("pmat", F); if (w == 0) k.out("den1", d1).out("den2", d2); else k.out("den", den);
    k.run([&]() { switch (w) { case 0: matrix_pade_generic_iterative(d1, d2, F, order); break; case 1: matrix_pade_generic_iterative(den, F, order); break; case 2: matrix_pade_generic_recursion(den, F, order); break; case 3: matrix_pade_generic(den, F, order); break; default: matrix_recon_approximation(den, seq); } });
    if (w == 0) { k.check(d1.NumRows() == n && d1.NumCols() == n && d2.NumRows() == n && d2.NumCols() == n, "matrix_pade_generic_iterative: dimensions"); } else if (w == 2) { k.check(den.NumRows() == 2 * n && den.NumCols() == n, S("matrix_pade_generic_recursion: result is " << dims(den))); d1 = blk(den, 0, 0, n, n); d2 = blk(den, n, 0, n, n); } else { d1 = den; k.check(d1.NumRows() == n && d1.NumCols() == n, S("matrix_pade: result is " << dims(d1))); }
    k.check(normalized(d1) && normalized(d2), "unnormalized entries"); long dd = (order + 1) / 2, fl = order / 2; k.check(rdeg(minusXdI(d1, dd)) < dd, S("matrix_pade: denominator is not x^dd I + lower, dd=" << dd)); if (order % 2) k.check(divX(minusXdI(d1, dd)), "matrix_pade: odd order, denominator is not x^dd I + x D");
    // numerator: den * pmat mod x^order has degree < dd (odd order: the approximant block is x P01 of degree d)
    PM N = rtrunc(rmul(d1, F), order); k.check(rdeg(N) < (order % 2 ? fl + 1 : fl), S("matrix_pade: numerator of degree " << rdeg(N) << " for order " << order)); if (order % 2) k.check(divX(N), "matrix_pade: odd order, numerator not divisible by x");
    if (w == 0 || w == 2) { PM M = rtrunc(rmul(d2, F), order); k.check(rdeg(d2) <= fl, S("matrix_pade: second denominator of degree " << rdeg(d2))); if (order % 2 == 0) { k.check(divX(d2), "matrix_pade: second denominator does not vanish at 0"); k.check(rdeg(minusXdI(M, fl)) < fl && divX(M), "matrix_pade: second numerator is not x^d I + x P11"); } else k.check(rdeg(minusXdI(M, fl)) < fl, "matrix_pade: second numerator is not x^d I + lower"); }
}
OP("C09", popov_generic, 40, 600, 2000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(2, k.sz(5, 8, 12)), n = r.in(1, m - 1), order = r.chance(40) ? r.in(1, 10) : r.in(1, k.sz(24, 70, 150)); PM F = rmat(r, m, n, order), P; bool it = r.chance(40); k.d << m << "x" << n << " order " << order << " iterative " << it; k.tag(S((it ? "it" : "dac") << ((n * order) % m == 0)));
    k.in("pmat", F).out("appbas", P); k.run([&]() { if (it) popov_mbasis_rescomp_generic(P, F, order); else popov_pmbasis_generic(P, F, order); });
    const char *nm = it ? "popov_mbasis_rescomp_generic" : "popov_pmbasis_generic"; k.check(P.NumRows() == m && P.NumCols() == m && normalized(P), S(nm << ": dimensions")); VL z(m, 0); long f = o_form(P, z); k.check(f >= 1, S(nm << ": not reduced")); VL rd = o_rdeg(P, z); long s = 0; for (long x : rd) s += x; k.check(s == n * order, S(nm << ": determinant of degree " << s << " instead of " << n * order)); k.check(vanish(k, P, F, order), S(nm << ": a row is not an approximant"));
    k.tag(S("form" << f));
}
// one column, order a multiple of the number of rows (halvings included), generic input: basis x^q I + lower terms
OP("C09", onecolumn, 20, 300, 1000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(1, k.sz(4, 6, 10)), it = r.below(2), q = it || r.chance(60) ? r.in(1, 16) : 2 * r.in(9, 16); if (k.tier > 0 && !it && r.chance(15)) q = 4 * r.in(9, 16); long order = m * q; PM F = rmat(r, m, 1, order), P; for (long i = 0; i < m; i++) SetCoeff(F[i][0], order - 1, rnz(r)); VL sh(m, 0), pd; k.d << m << "x1 order " << order << (it ? " iterative" : "");
    k.in("pmat", F).out("appbas", P); k.run([&]() { pd = it ? mbasis_generic_onecolumn(P, F, order, sh) : pmbasis_generic_onecolumn(P, F, order, sh); });
    k.check(P.NumRows() == m && P.NumCols() == m && normalized(P), "onecolumn: dimensions"); VL z(m, 0); k.check(o_rdeg(P, z) == VL(m, q), "onecolumn: row degrees are not all order/rows"); k.check(o_form(P, z) >= 1, "onecolumn: not reduced"); k.check(pd == VL(m, q), "onecolumn: reported pivot degrees"); k.check(rdeg(rtrunc(rmul(P, F), order)) < 0, "onecolumn: rows are not approximants");
}
OP("C09", recon_interpolation, 40, 600, 2000)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(1, k.sz(3, 5, 8)), d = r.in(1, k.sz(6, 14, 30)), N = 2 * d + (r.chance(50) ? 0 : r.in(0, 4)); bool geo = r.chance(50); zz_p q; CV pts; pts.SetLength(N); if (geo) { element_of_order(q, 2 * N + 4); if (q == 0) throw Skip{}; zz_p t = to_zz_p(1), qq = q * q; for (long i = 0; i < N; i++) { pts[i] = t; t *= qq; } } else for (long i = 0; i < N; i++) pts[i] = to_zz_p(i * 7 + r.in(0, 6));
    PM D = rmat(r, m, m, d), U = rmat(r, m, m, d); zz_pX xd; SetCoeff(xd, d); for (long i = 0; i < m; i++) D[i][i] += xd; Vec<CM> seq, s0; seq.SetLength(N); for (long i = 0; i < N; i++) { CM di = reval(D, pts[i]); if (rdet(di) == 0) throw Skip{}; seq[i] = inv(di) * reval(U, pts[i]); } s0 = seq; PM B; k.d << "m=" << m << " d=" << d << " N=" << N << (geo ? " geometric" : ""); k.tag(geo ? "geo" : "gen");
    k.in("pts", pts).scratch("seq", seq).out("basis", B); k.run([&]() { if (geo) matrix_recon_interpolation_geometric(B, pts, q, seq); else matrix_recon_interpolation(B, pts, seq); });
    k.check(B.NumRows() == m && B.NumCols() == m && normalized(B), S("matrix_recon_interpolation: result is " << dims(B))); k.check(rdeg(B) <= d, S("matrix_recon_interpolation: degree " << rdeg(B))); 
    // B * D^{-1} U interpolates a matrix of degree < d at the points: the sequence is rebuilt with the same denominator
    PM num; num.SetDims(m, m); Vec<CM> val; val.SetLength(N); for (long i = 0; i < N; i++) val[i] = rcmul(reval(B, pts[i]), s0[i]);
    for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { CV y; y.SetLength(N); for (long t = 0; t < N; t++) y[t] = val[t][i][j]; zz_pX f; interpolate(f, pts, y); k.check(deg(f) < d, S("matrix_recon_interpolation: numerator entry of degree " << deg(f))); }
    zz_pX a = rdet(B), b = rdet(D); k.check(a != 0, "matrix_recon_interpolation: singular denominator"); MakeMonic(a); MakeMonic(b); k.check(a == b, "matrix_recon_interpolation: determinant differs from that of the denominator");
}
OP("C09", gen_powers, 60, 1200, 4000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(30) ? r.in(2, 6) : r.chance(80) ? r.in(2, 60) : r.in(60, k.sz(200, 400, 900)), l = r.in(1, 6), s = r.chance(30) ? r.in(0, 2) : r.in(1, 9); zz_pX g = rpoly(r, n); SetCoeff(g, n, r.chance(60) ? to_zz_p(1) : rnz(r)); zz_pX a = r.chance(80) ? rpolyS(r, n) : rpoly(r, 2), t = r.chance(30) ? zz_pX(1) : r.chance(10) ? zz_pX() : rpolyS(r, n); bool up = r.chance(60); PV P, U; k.d << "deg g=" << n << " l=" << l << " s=" << s << " upper " << up; k.tag(S("up" << up << (n < 60)));
    k.in("t", t).in("a", a).in("g", g).out("pow", P); if (up) k.out("upper", U); k.run([&]() { gen_pows(P, U, t, a, s, g, l, up); });
    k.check(P.length() == l, "gen_pows: length"); zz_pX as(1), w = t % g; for (long i = 0; i < s; i++) as = as * a % g; zz_pX I; if (up) { k.check(U.length() == l, "gen_pows: number of upper products"); I = InvTrunc(reverse(g, n), n - 1); }
    for (long i = 0; i < l; i++) { k.check(normalized(P[i]) && P[i] == w, S("gen_pows: power " << i << " is not t a^(s i) mod g")); if (up) { zz_pX u = MulTrunc(reverse(w, n - 1), I, n - 1); k.check(normalized(U[i]) && U[i] == u, S("gen_pows: upper product " << i)); } w = w * as % g; }
}
OP("C09", gen_seq, 30, 300, 900)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; long m = r.in(1, k.sz(3, 5, 8)), n = r.chance(70) ? r.in(2 * m + 1, 12 * m + 3) : r.in(2 * m + 1, k.sz(40, 120, 300)); if (n < 2 * m + 1) n = 2 * m + 1; zz_pX g = rpoly(r, n), a = r.chance(80) ? rpoly(r, n) : rpolyS(r, r.in(2, n)); SetCoeff(g, n, 1); SetCoeff(g, 0, rnz(r)); g.normalize(); Vec<CM> M; k.d << "deg g=" << n << " m=" << m << " deg a=" << deg(a);
    k.in("a", a).in("g", g).out("mats", M); { Quiet q; k.run([&]() { gen_sequence(M, a, g, m); }); }
    long D = 2 * ((n + m - 1) / m) + 1; k.check(M.length() == D, S("gen_sequence: " << M.length() << " matrices instead of " << D)); zz_pX w(1);
    for (long e = 0; e < D; e++) { const CM &Q = M[D - 1 - e]; k.check(Q.NumRows() == m && Q.NumCols() == m, "gen_sequence: dimensions"); zz_pX v = w; for (long i = 0; i < m; i++) { for (long j = 0; j < m; j++) k.check(Q[i][j] == coeff(v, j), S("gen_sequence: entry (" << i << "," << j << ") for power " << e)); v = (v << 1) % g; } w = w * a % g; }
}
