// C27: invalid arguments are reported (NTL error or std exception), valid neighbours are not
#include "common.h"
#include <stdexcept>
#include "lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_CRT.h"
#include "lzz_pXY.h"
#include "mat_lzz_p_extra.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_linearization.h"
#include "structured_lzz_p.h"
#include "structured_lzz_pX.h"
PML_CLIENT
// valid: the call must return; otherwise it must raise an error
static void expect(Ctx &k, bool valid, const std::string &what, const std::function<void()> &f)
{
    std::string e; bool err = false;
    try { f(); } catch (NtlErr &x) { err = true; e = x.msg; } catch (std::exception &x) { err = true; e = x.what(); }
    if (err && (e.find("out of range") != std::string::npos || e.find("range check") != std::string::npos)) throw Fail{what + ": indexing beyond the end of an object: " + e + (valid ? " (valid arguments)" : " (invalid arguments)")};
    k.calls++; k.tag(valid ? "valid" : "invalid");
    if (valid) k.check(!err, what + ": error on valid arguments: " + e); else k.check(err, what + ": invalid arguments are not reported");
}
// dimensions near (m,n) that differ from it: one off, swapped, empty, same number of entries
static void nudge(Rng &r, long m, long n, long &m2, long &n2)
{
    do { m2 = m; n2 = n; switch (r.below(6)) { case 0: m2 += r.chance(50) ? 1 : -1; break; case 1: n2 += r.chance(50) ? 1 : -1; break; case 2: m2 = n; n2 = m; break; case 3: m2 = m * n; n2 = 1; break; case 4: m2 = r.in(0, 6); n2 = r.in(0, 6); break; default: m2 += r.in(1, 4); n2 -= r.in(0, n); } if (m2 < 0) m2 = 0; if (n2 < 0) n2 = 0; } while (m2 == m && n2 == n);
}
static long nudge1(Rng &r, long n) { long x; do x = r.chance(70) ? n + (r.chance(50) ? 1 : -1) : r.in(0, n + 6); while (x == n || x < 0); return x; }
OP("C27", bad_arith_matrix, 100, 3000, 10000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(1, 6), n = r.in(1, 6), m2 = m, n2 = n; bool ok = r.chance(30); if (!ok) nudge(r, m, n, m2, n2); PM a = rmatS(r, m, n, r.in(1, 6)), b = rmatS(r, m2, n2, r.in(1, 6)), c = r.chance(50) ? PM() : rmat(r, r.in(0, 4), r.in(0, 4), 2); CM d = rcm(r, m2, n2); if (r.chance(50)) { std::swap(a, b); } bool sw = a.NumRows() != m || a.NumCols() != n; CM dd = sw ? rcm(r, m, n) : d;
    int w = r.below(13); long sh = r.in(0, 3); k.d << m << "x" << n << " and " << m2 << "x" << n2 << " routine " << w; static const char *nm[] = {"add", "add constant", "constant add", "sub", "sub constant", "constant sub", "add_LeftShift", "operator+", "operator+=", "operator-=", "operator-", "operator+= constant", "operator-= constant"};
    expect(k, ok, nm[w], [&]() { switch (w) { case 0: add(c, a, b); break; case 1: add(c, a, dd); break; case 2: add(c, dd, a); break; case 3: sub(c, a, b); break; case 4: sub(c, a, dd); break; case 5: sub(c, dd, a); break; case 6: add_LeftShift(c, a, b, sh); break; case 7: c = a + b; break; case 8: a += b; break; case 9: a -= b; break; case 10: c = a - b; break; case 11: a += dd; break; default: a -= dd; } });
}
OP("C27", bad_arith_vector, 100, 3000, 10000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, 8), n2 = n; bool ok = r.chance(30); if (!ok) n2 = nudge1(r, n); if (r.chance(50)) std::swap(n, n2); PV a = rvec(r, n, r.in(1, 6)), b = rvec(r, n2, r.in(1, 6)), c; CV d = rcv(r, n2); int w = r.below(13); long sh = r.in(0, 3); k.d << n << " and " << n2 << " routine " << w;
    static const char *nm[] = {"add (vectors)", "add constant (vectors)", "constant add (vectors)", "sub (vectors)", "sub constant (vectors)", "constant sub (vectors)", "add_LeftShift (vectors)", "operator+ (vectors)", "operator+= (vectors)", "operator-= (vectors)", "operator- (vectors)", "operator+= constant (vectors)", "operator-= constant (vectors)"};
    expect(k, ok, nm[w], [&]() { switch (w) { case 0: add(c, a, b); break; case 1: add(c, a, d); break; case 2: add(c, d, a); break; case 3: sub(c, a, b); break; case 4: sub(c, a, d); break; case 5: sub(c, d, a); break; case 6: add_LeftShift(c, a, b, sh); break; case 7: c = a + b; break; case 8: a += b; break; case 9: a -= b; break; case 10: c = a - b; break; case 11: a += d; break; default: a -= d; } });
}
OP("C27", mul_constant, 60, 2000, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(1, 6), n = r.in(1, 6), p = r.in(1, 6), n2 = n; bool ok = r.chance(30); if (!ok) n2 = nudge1(r, n); bool left = r.chance(50); PM a = left ? rmatS(r, n2, p, r.in(1, 6)) : rmatS(r, m, n, r.in(1, 6)), c; CM d = left ? rcm(r, m, n) : rcm(r, n2, p); int w = r.below(3); k.d << m << "x" << n << " by " << n2 << "x" << p << (left ? " constant left" : " constant right") << " variant " << w;
    expect(k, ok, "multiplication by a constant matrix", [&]() { if (w == 0) { if (left) mul(c, d, a); else mul(c, a, d); } else if (w == 1) { if (left) c = d * a; else c = a * d; } else { if (left) mul(a, d, a); else a *= d; } });
}
OP("C27", shift_lengths, 60, 3000, 10000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(1, 6), n = r.in(1, 6); PM a = rmatS(r, m, n, r.in(1, 6)); int w = r.below(20); bool row = w % 2 == 0; bool ok = r.chance(30); long len = row ? n : m, l2 = len; if (!ok) { do l2 = nudge1(r, len); while (l2 == 0); if (r.chance(30) && m != n) l2 = row ? m : n; } VL s = rshift(r, l2), d, d2; Mat<long> D; CM L; k.d << m << "x" << n << " shift of length " << l2 << " routine " << w;
    static const char *nm[] = {"row_degree", "col_degree", "row_pivots", "col_pivots", "degree_matrix_rowshifted", "degree_matrix_colshifted", "row_leading_matrix", "col_leading_matrix", "is_row_reduced", "is_col_reduced", "is_row_weak_popov", "is_col_weak_popov", "is_row_ordered_weak_popov", "is_col_ordered_weak_popov", "is_row_popov", "is_col_popov", "is_row_polmatform", "is_col_polmatform", "get_row_polmatform", "get_col_polmatform"};
    if (l2 == 0) throw Skip{};   // an empty shift stands for the zero shift
    expect(k, ok, nm[w], [&]() { switch (w) {
        case 0: row_degree(d, a, s); break; case 1: col_degree(d, a, s); break; case 2: row_pivots(d, d2, a, s); break; case 3: col_pivots(d, d2, a, s); break; case 4: degree_matrix_rowshifted(D, a, s); break; case 5: degree_matrix_colshifted(D, a, s); break; case 6: row_leading_matrix(L, a, s); break; case 7: col_leading_matrix(L, a, s); break;
        case 8: is_row_reduced(a, s); break; case 9: is_col_reduced(a, s); break; case 10: is_row_weak_popov(a, s); break; case 11: is_col_weak_popov(a, s); break; case 12: is_row_ordered_weak_popov(a, s); break; case 13: is_col_ordered_weak_popov(a, s); break; case 14: is_row_popov(a, s); break; case 15: is_col_popov(a, s); break;
        case 16: is_row_polmatform(r.chance(50) ? REDUCED : POPOV, a, s); break; case 17: is_col_polmatform(r.chance(50) ? WEAK_POPOV : ORD_WEAK_POPOV, a, s); break; case 18: get_row_polmatform(a, s); break; default: get_col_polmatform(a, s); } });
}
OP("C27", unknown_forms, 20, 400, 1000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(1, 4), n = r.in(1, 4); PM a = rmatS(r, m, n, 3); int w = r.below(4); long f = r.chance(40) ? r.in(0, 4) : r.chance(50) ? r.in(5, 12) : -r.in(1, 5); bool ok = f >= NONE && f <= POPOV; k.d << m << "x" << n << " form " << f << " routine " << w; VL s = rshift(r, w % 2 == 0 ? n : m);
    expect(k, ok, w % 2 ? "is_col_polmatform" : "is_row_polmatform", [&]() { PolMatForm g = (PolMatForm)f; if (w == 0) is_row_polmatform(g, a); else if (w == 1) is_col_polmatform(g, a); else if (w == 2) is_row_polmatform(g, a, s); else is_col_polmatform(g, a, s); });
}
OP("C27", truncated_inverse, 60, 2500, 8000)
{
    int w = k.rng.below(6); setmod(k, w == 2 ? K_FFT : w == 4 ? K_LARGEONLY : K_ALL); Rng &r = k.rng; long n = r.in(1, 6), d = r.in(1, r.chance(80) ? 12 : k.sz(20, 80, 200)), len = r.in(1, 8); PM a = rmat(r, n, n, len), x; int bad = r.below(5); long th = r.chance(50) ? -1 : r.in(1, 4);
    CM c0 = rcm_inv(r, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(a[i][j], 0, c0[i][j]);
    if (bad == 1) { c0 = rcm_rank(r, n, n, r.in(0, n - 1)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(a[i][j], 0, c0[i][j]); } if (bad == 2) { long m2 = nudge1(r, n); if (m2 == 0) m2 = n + 1; a = r.chance(50) ? rmat(r, n, m2, len) : rmat(r, m2, n, len); if (rIsZero(a)) throw Skip{}; } if (bad == 3) a = rzero(n, n);
    bool ok = bad == 0 || bad == 4; bool al = r.chance(25); if (al) x = a; k.d << dims(a) << " order " << d << " routine " << w << " defect " << bad << (al ? " alias" : ""); k.tag(S("w" << w << "b" << bad)); const PM &I = al ? x : a;
    static const char *nm[] = {"inv_trunc", "plain_inv_trunc", "newton_inv_trunc_FFT", "newton_inv_trunc_middle_product", "newton_inv_trunc_geometric", "inv_trunc"};
    expect(k, ok, nm[w], [&]() { switch (w) { case 0: inv_trunc(x, I, d); break; case 1: plain_inv_trunc(x, I, d); break; case 2: newton_inv_trunc_FFT(x, I, d, th); break; case 3: newton_inv_trunc_middle_product(x, I, d, th); break; case 4: newton_inv_trunc_geometric(x, I, d, th); break; default: x = inv_trunc(I, d); } });
}
OP("C27", matrix_utils, 60, 2000, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(1, 5), n = r.in(1, 6), m2 = m, n2 = n; bool ok = r.chance(30); int w = r.below(5); PM a = rmatS(r, m, n, r.in(1, 5)), c; k.d << m << "x" << n << " routine " << w;
    if (w == 0) { if (!ok) nudge(r, m, n, m2, n2); CM d = rcm(r, m2, n2); expect(k, ok, "SetCoeff", [&]() { SetCoeff(a, r.in(0, 6), d); }); }
    else if (w == 1) { if (!ok) m2 = nudge1(r, m); PM b = rmatS(r, m2, r.in(0, 5), 3); expect(k, ok, "horizontal_join", [&]() { horizontal_join(c, a, b); }); }
    else if (w <= 3) { long s = r.in(1, 7), d = r.in(1, 4); ok = n % s == 0; k.d << " s=" << s; expect(k, ok, w == 2 ? "collapse_consecutive_columns" : "collapse_nonconsecutive_columns", [&]() { if (w == 2) collapse_consecutive_columns(c, a, d, s); else collapse_nonconsecutive_columns(c, a, d, s); }); }
    else { Mat<zz_pX> A = rmat(r, m, m, r.in(2, 5)); CM c0 = rcm_inv(r, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) SetCoeff(A[i][j], 0, c0[i][j]); long dA = rdeg(A), db = ok ? r.in(0, dA) : r.in(dA + 1, dA + 4); PM b = rmat(r, m, r.in(1, 3), db); ok = rdeg(b) < dA; if (dA < 1) throw Skip{}; k.d << " deg A=" << dA << " deg b=" << rdeg(b); expect(k, ok, "solve_series_high_order_lifting", [&]() { solve_series_high_order_lifting(c, A, b, r.in(1, 20)); }); }
}
OP("C27", degree_bounds, 60, 1500, 5000)
{
    int w = k.rng.below(8); setmod(k, w <= 1 || w == 6 ? K_FFT : w == 2 || w == 3 ? K_LARGEONLY : K_ALL); Rng &r = k.rng; bool ok = r.chance(40); k.d << "routine " << w; long e = ok ? 0 : r.in(1, 3);
    switch (w) {
    case 0: case 1: case 2: { long m = r.in(1, 5), n = r.in(1, 5), p = r.in(1, 4), dB = r.in(0, 12); PM a = rmat(r, m, n, r.in(1, 12)), b = rmat(r, n, p, dB + 1), c; if (rdeg(a) < 0) throw Skip{}; SetCoeff(b[r.below(n)][r.below(p)], dB + e, rnz(r)); k.d << " bound " << dB << " degree " << rdeg(b); std::unique_ptr<mat_lzz_pX_lmultiplier> l; if (w == 0) l.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB)); else if (w == 1) l.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a, dB)); else l.reset(new mat_lzz_pX_lmultiplier_geometric(a, dB)); expect(k, ok, "multiplier: right-hand side degree", [&]() { l->multiply(c, b); }); break; }
    case 3: { long m = r.in(1, 4), n = r.in(1, 4), p = r.in(1, 4), dA = r.in(0, 8), dB = r.in(0, 8); PM a = rmat(r, m, n, dA + 1), c = rmat(r, n, p, dA + dB + 1), b; bool onA = r.chance(50); SetCoeff(a[r.below(m)][r.below(n)], dA + (onA ? e : 0), rnz(r)); SetCoeff(c[r.below(n)][r.below(p)], dA + dB + (onA ? 0 : e), rnz(r)); expect(k, ok, "t_multiply_evaluate_geometric", [&]() { t_multiply_evaluate_geometric(b, a, c, dA, dB); }); break; }
    case 4: { long d = r.in(0, 30); zz_pX f = rpoly(r, d + 1), g; SetCoeff(f, d + e, rnz(r)); zz_pX_shift_DAC s(d, rc(r)); k.d << " shift bound " << d; expect(k, ok, "zz_pX_shift_DAC", [&]() { s.shift(g, f); }); if (zz_p::modulus() > d + 1) { zz_pX_shift_large_characteristic t(d, rc(r)); expect(k, ok, "zz_pX_shift_large_characteristic", [&]() { t.shift(g, f); }); } break; }
    case 5: { long m = ok ? r.in(0, 40) : -r.in(1, 50); zz_pX a = rpoly(r, 10), b = rpoly(r, 10), x; SetCoeff(a, 0, rnz(r)); k.d << " precision " << m; expect(k, ok, "InvTruncMul", [&]() { InvTruncMul(x, b, a, m); }); break; }
    case 6: { long n = ok ? 1L << r.in(0, 8) : r.in(3, 200); ok = (n & (n - 1)) == 0; k.d << " points " << n; expect(k, ok, "zz_pX_Multipoint_FFT", [&]() { zz_pX_Multipoint_FFT ev(n); }); break; }
    default: { long i = ok ? r.in(0, 10) : -r.in(1, 5); zz_pXY x; x.rep = rvec(r, r.in(0, 5), 4); x.normalize(); zz_pX c = rpoly(r, 4); k.d << " index " << i; expect(k, ok, "SetCoeff (zz_pXY)", [&]() { SetCoeff(x, i, c); }); }
    }
}
OP("C27", orders, 30, 600, 2000)
{
    Rng &r = k.rng; setmod(k, K_ALL); long p = zz_p::modulus(); zz_p a; int w = r.below(2);
    if (w == 0) { long o = p - 1 < 200 ? (r.chance(50) ? p - 1 + r.in(1, 5) : r.in(1, std::max(1L, p - 1))) : r.chance(50) ? r.in(1, 40) : p - 1 + r.in(1, 1000); bool ok = o <= p - 1; k.d << " order " << o; expect(k, ok, "element_of_order", [&]() { element_of_order(a, o); }); }
    else { if (p < 1000000) throw Skip{}; long n = r.in(1, 20); zz_p q; element_of_order(q, 2 * n + 2); if (q == 0) throw Skip{}; zz_pX_Multipoint_Geometric ev(q, n); long d = r.in(0, n + 4); bool ok = d < n; k.d << " geometric points " << n << " degree " << d; expect(k, ok, "zz_pX_Multipoint_Geometric::prepare_degree", [&]() { ev.prepare_degree(d); }); }
}
static std::unique_ptr<structured_lzz_p> mk(Ctx &k, int w, std::string &nm)
{
    Rng &r = k.rng; long n = r.in(1, 7), m = r.in(1, 7), al = r.in(1, 3); std::unique_ptr<structured_lzz_p> M; CV a = rcv(r, n + m - 1), b = rcv(r, n), c = rcv(r, m); CM G = rcm(r, n, al), H = rcm(r, m, al);
    switch (w) {
    case 0: nm = "hankel"; M.reset(new hankel_lzz_p(a, n, m)); break; case 1: nm = "toeplitz"; M.reset(new toeplitz_lzz_p(a, n, m)); break; case 2: nm = "lower_triangular_toeplitz"; M.reset(new lower_triangular_toeplitz_lzz_p(b)); break;
    case 3: nm = "circulant_row"; M.reset(new circulant_row_lzz_p(c, n)); break; case 4: nm = "circulant_column"; M.reset(new circulant_column_lzz_p(b, m)); break;
    case 5: nm = "toeplitz_like_plus"; M.reset(new toeplitz_like_plus_lzz_p(G, H)); break; case 6: nm = "toeplitz_like_minus"; M.reset(new toeplitz_like_minus_lzz_p(G, H)); break; case 7: nm = "hankel_like_plus"; M.reset(new hankel_like_plus_lzz_p(G, H)); break; case 8: nm = "hankel_like_minus"; M.reset(new hankel_like_minus_lzz_p(G, H)); break;
    case 9: { nm = "sylvester"; zz_pX f = rpoly(r, n), g = rpoly(r, m); SetCoeff(f, n, rnz(r)); SetCoeff(g, m, rnz(r)); M.reset(new sylvester_lzz_p(f, g)); break; }
    case 10: { nm = "mosaic_hankel"; Vec<Vec<hankel_lzz_p>> v; v.SetLength(r.in(1, 3)); long q = r.in(1, 3); VL cs(q); for (auto &x : cs) x = r.in(1, 3); for (long i = 0; i < v.length(); i++) { v[i].SetLength(q); long h = r.in(1, 3); for (long j = 0; j < q; j++) v[i][j] = hankel_lzz_p(rcv(r, h + cs[j] - 1), h, cs[j]); } M.reset(new mosaic_hankel_lzz_p(v)); break; }
    default: { nm = "mosaic_toeplitz"; Vec<Vec<toeplitz_lzz_p>> v; v.SetLength(r.in(1, 3)); long q = r.in(1, 3); VL cs(q); for (auto &x : cs) x = r.in(1, 3); for (long i = 0; i < v.length(); i++) { v[i].SetLength(q); long h = r.in(1, 3); for (long j = 0; j < q; j++) v[i][j] = toeplitz_lzz_p(rcv(r, h + cs[j] - 1), h, cs[j]); } M.reset(new mosaic_toeplitz_lzz_p(v)); }
    }
    return M;
}
OP("C27", structured_sizes, 100, 4000, 12000)
{
    setmod(k, K_ALL); Rng &r = k.rng; int w = r.below(12), o = r.below(5); std::string nm; std::unique_ptr<structured_lzz_p> M = mk(k, w, nm); long m = M->NumRows(), n = M->NumCols(); bool ok = r.chance(30); k.tag(nm); k.d << nm << " " << m << "x" << n << " operation " << o;
    if (o < 4) { bool right = o % 2 == 0; long len = right ? n : m, l2 = len; if (!ok) { l2 = nudge1(r, len); if (m != n && r.chance(40)) l2 = right ? m : n; } k.d << " operand " << l2; bool al = r.chance(20);
        if (o < 2) { CV v = rcv(r, l2), x; expect(k, ok, nm + (right ? ": mul_right(vector)" : ": mul_left(vector)"), [&]() { CV &y = al ? v : x; if (right) M->mul_right(y, v); else M->mul_left(y, v); }); }
        else { long c = r.in(1, 4); CM v = right ? rcm(r, l2, c) : rcm(r, c, l2), x; expect(k, ok, nm + (right ? ": mul_right(matrix)" : ": mul_left(matrix)"), [&]() { CM &y = al ? v : x; if (right) M->mul_right(y, v); else M->mul_left(y, v); }); }
    } else if (w >= 10) { long i = ok ? r.below(m) : m + r.in(0, 2), j = r.below(n); if (r.chance(50)) { i = r.below(m); j = ok ? r.below(n) : n + r.in(0, 2); } k.d << " index " << i << "," << j; expect(k, ok, nm + ": operator()", [&]() { if (w == 10) (*static_cast<mosaic_hankel_lzz_p *>(M.get()))(i, j); else (*static_cast<mosaic_toeplitz_lzz_p *>(M.get()))(i, j); });
        if (m != n) expect(k, false, nm + ": inv of a non-square matrix", [&]() { if (w == 10) { hankel_like_minus_lzz_p I; static_cast<mosaic_hankel_lzz_p *>(M.get())->inv(I); } else { toeplitz_like_minus_lzz_p I; static_cast<mosaic_toeplitz_lzz_p *>(M.get())->inv(I); } }); }
}
OP("C27", structured_pX_sizes, 100, 3000, 9000)
{
    setmod(k, K_ALL); Rng &r = k.rng; int w = r.below(3), o = r.below(4); long n = r.in(1, 6), m = r.in(1, 6), len = r.in(1, 5); std::unique_ptr<structured_lzz_pX> M; std::string nm; bool ok = r.chance(30);
    if (r.chance(8)) { PV f = rvec(r, n + 1, len), g = rvec(r, m + 1, len); bool good = r.chance(40); while (f[n] == 0) f[n] = rpoly(r, len); while (g[m] == 0) g[m] = rpoly(r, len); if (!good) { if (r.chance(50)) clear(f[n]); else clear(g[m]); } k.d << "sylvester constructor"; expect(k, good, "sylvester_lzz_pX: leading coefficient", [&]() { sylvester_lzz_pX s(f, g); }); return; }
    if (w == 0) { nm = "lower_triangular_toeplitz_lzz_pX"; M.reset(new lower_triangular_toeplitz_lzz_pX(rvec(r, n, len))); } else if (w == 1) { nm = "circulant_row_lzz_pX"; M.reset(new circulant_row_lzz_pX(rvec(r, m, len), n)); } else { nm = "sylvester_lzz_pX"; PV f = rvec(r, n + 1, len), g = rvec(r, m + 1, len); while (f[n] == 0) f[n] = rpoly(r, len); while (g[m] == 0) g[m] = rpoly(r, len); M.reset(new sylvester_lzz_pX(f, g)); }
    m = M->NumRows(); n = M->NumCols(); bool right = o % 2 == 0, tr = r.chance(50); long t = r.in(1, 8), L = right ? n : m, l2 = L; if (!ok) { l2 = nudge1(r, L); if (m != n && r.chance(40)) l2 = right ? m : n; } k.tag(nm); k.d << nm << " " << m << "x" << n << " operation " << o << (tr ? " truncated" : "") << " operand " << l2;
    if (o < 2) { PV v = rvec(r, l2, len), x; expect(k, ok, nm + (right ? ": mul_right(vector)" : ": mul_left(vector)"), [&]() { if (right) { if (tr) M->mul_right_trunc(x, v, t); else M->mul_right(x, v); } else { if (tr) M->mul_left_trunc(x, v, t); else M->mul_left(x, v); } }); }
    else { long c = r.in(1, 3); PM v = right ? rmat(r, l2, c, len) : rmat(r, c, l2, len), x; expect(k, ok, nm + (right ? ": mul_right(matrix)" : ": mul_left(matrix)"), [&]() { if (right) { if (tr) M->mul_right_trunc(x, v, t); else M->mul_right(x, v); } else { if (tr) M->mul_left_trunc(x, v, t); else M->mul_left(x, v); } }); }
}
