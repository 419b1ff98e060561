// C16: scalar, vector and univariate helpers
#include "common.h"
#include "lzz_pX_extra.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "mat_lzz_p_extra.h"
PML_CLIENT
static long gcdl(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
// prime moduli of every kind, now and then a composite one
static long anymod(Ctx &k, int pct)
{
    if (!k.rng.chance(pct)) return setmod(k, K_ALL);
    long m; int w = k.rng.below(3); m = w == 0 ? k.rng.in(4, 60) : w == 1 ? k.rng.in(100, 1L << 30) : NextPrime(1000 + k.rng.below(1L << 20)) * NextPrime(1000 + k.rng.below(1L << 20));
    zz_p::init(m); k.d << "m=" << m << " "; k.tag("composite"); return m;
}
static zz_p runit(Rng &r) { zz_p x; do { x = rc(r); } while (gcdl(rep(x), zz_p::modulus()) != 1); return x; }
static zz_pX series_div(const zz_pX &b, const zz_pX &a, long d)
{
    zz_pX x; if (d <= 0) return x; x.rep.SetLength(d); zz_p s = inv(a.rep[0]);
    for (long i = 0; i < d; i++) { zz_p t = coeff(b, i); long lo = std::max(0L, i - deg(a)); for (long j = lo; j < i; j++) t -= x.rep[j] * a.rep[i - j]; x.rep[i] = t * s; }
    x.normalize(); return x;
}
OP("C16", inv_trunc_mul, 200, 6000, 20000)
{
    anymod(k, 12); Rng &r = k.rng; long mx = k.sz(100, 250, 1500); long d = r.chance(25) ? r.in(0, 6) : r.chance(40) ? std::max(0L, (1L << r.in(3, 8)) + r.in(-2, 2)) : r.in(0, mx);
    int wa = r.below(5), wb = r.below(5); zz_pX a = wa == 0 ? rpolyS(r, r.in(1, 5)) : wa == 1 ? rpolyS(r, d / 2 + 1) : rpolyS(r, r.in(1, d + 3)), b = wb == 0 ? rpolyS(r, r.in(0, 5)) : wb == 1 ? rpolyS(r, d / 2) : rpolyS(r, r.in(0, d + 3)); if (r.chance(8)) b = a * rpolyS(r, r.in(0, 10));
    SetCoeff(a, 0, r.chance(20) ? to_zz_p(1) : runit(r)); a.normalize(); if (r.chance(6)) b = a; zz_pX a0 = a, b0 = b, f; int al = r.below(5); k.d << "deg a=" << deg(a) << " deg b=" << deg(b) << " d=" << d << " alias=" << al; k.tag(S(d / 32));
    zz_pX want = series_div(b, a, d);
    if (al == 0) { k.in("b", b).inout("a", a); k.run([&]() { InvTruncMul(a, b, a, d); }); f = a; }
    else if (al == 1) { k.in("a", a).inout("b", b); k.run([&]() { InvTruncMul(b, b, a, d); }); f = b; }
    else if (al == 2) { k.in("a", a).in("b", b).out("f", f); k.run([&]() { f = InvTruncMul(b, a, d); }); }
    else { k.in("a", a).in("b", b).out("f", f); k.run([&]() { InvTruncMul(f, b, a, d); }); }
    k.check(normalized(f), "InvTruncMul: unnormalized result"); k.check(f == want, "InvTruncMul: not the truncated quotient");
}
static zz_pX r_shift(const zz_pX &f, const zz_p &c) { zz_pX g, x; SetX(x); x += c; for (long i = deg(f); i >= 0; i--) g = g * x + f.rep[i]; return g; }
OP("C16", taylor_shift, 150, 4000, 12000)
{
    long p = anymod(k, 12); Rng &r = k.rng; long d = r.chance(30) ? r.in(-1, 8) : r.chance(40) ? (1L << r.in(1, 6)) + r.in(-2, 2) : r.in(0, k.sz(40, 130, 400)); zz_p c = r.chance(10) ? to_zz_p(0) : r.chance(15) ? to_zz_p(1) : rc(r); int w = r.below(4);
    bool large = true; for (long i = 2; i <= d && large; i++) if (gcdl(i, p) != 1) large = false; if (w == 1 && !large) w = 0; k.d << "d=" << d << " c=" << c << " class=" << w; k.tag(S("class" << w << (large ? "L" : "S")));
    if (w == 3) { zz_pX f = rpolyS(r, d + 1), g, e = r_shift(f, c); int al = r.below(3); if (al == 0) { g = f; k.inout("g", g); k.run([&]() { shift(g, g, c); }); } else if (al == 1) { k.in("f", f).out("g", g); k.run([&]() { g = shift(f, c); }); } else { k.in("f", f).out("g", g); k.run([&]() { shift(g, f, c); }); } k.check(normalized(g) && g == e, "shift: not f(x+c)"); return; }
    std::unique_ptr<zz_pX_shift> s; if (w == 0) s.reset(d == -1 && r.chance(50) ? new zz_pX_shift_DAC() : new zz_pX_shift_DAC(d, c)); else if (w == 1) s.reset(d == -1 && r.chance(50) ? new zz_pX_shift_large_characteristic() : new zz_pX_shift_large_characteristic(d, c)); else s = get_shift(d, c);
    for (long u = r.in(1, 4); u > 0; u--) { zz_pX f = rpolyS(r, r.chance(60) ? d + 1 : r.in(0, d + 1)), e = r_shift(f, c), g; if (r.chance(30)) { g = f; k.inout("g", g); k.run([&]() { s->shift(g, g); }); } else { k.in("f", f).out("g", g); k.run([&]() { s->shift(g, f); }); } k.check(normalized(g) && g == e, S("Taylor shift object: not f(x+c), deg f=" << deg(f))); if (r.chance(20)) perturb_history(r); }
}
OP("C16", add_leftshift, 80, 3000, 9000)
{
    setmod(k, K_ALL); Rng &r = k.rng; zz_pX a = rpolyS(r, r.in(0, 20)), b = rpolyS(r, r.in(0, 20)), c; long s = r.in(0, 22); if (r.chance(25) && s <= deg(a)) { b = -RightShift(a, s); if (r.chance(50)) trunc(b, b, r.in(0, 20)); } int al = r.below(5); if (al == 3) b = a; zz_pX e = a + LeftShift(b, s); k.d << "deg a=" << deg(a) << " deg b=" << deg(b) << " k=" << s << " alias=" << al;
    if (al == 0) { c = a; if (r.chance(50)) { c.rep.SetLength(60); for (long i = 0; i < 60; i++) c.rep[i] = rnz(r); c = a; } k.in("b", b).inout("c", c); k.run([&]() { add_LeftShift(c, c, b, s); }); }
    else if (al == 1) { c = b; k.in("a", a).inout("c", c); k.run([&]() { add_LeftShift(c, a, c, s); }); }
    else if (al == 3) { c = a; k.inout("c", c); k.run([&]() { add_LeftShift(c, c, c, s); }); }
    else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { add_LeftShift(c, a, b, s); }); }
    k.check(normalized(c) && c == e, "add_LeftShift: not a + x^k b"); k.check(is_monic(a) == (!IsZero(a) && LeadCoeff(a) == 1), "is_monic wrong");
}
OP("C16", vec_inv, 60, 1500, 5000)
{
    anymod(k, 20); Rng &r = k.rng; long n = r.chance(20) ? r.in(0, 2) : r.in(0, k.sz(20, 60, 300)), p = zz_p::modulus(); CV a, b; a.SetLength(n); for (long i = 0; i < n; i++) a[i] = runit(r); k.d << "n=" << n; CV a0 = a; int w = r.below(5);
    if (w == 0) { k.in("A", a).out("invA", b); k.run([&]() { inv_naive(b, a); }); } else if (w == 1) { b = a; k.inout("A", b); k.run([&]() { inv_naive(b, b); }); } else if (w == 2) { b = a; k.inout("A", b); k.run([&]() { PML::inv(b, b); }); } else if (w == 3) { k.in("A", a).out("invA", b); k.run([&]() { b = PML::inv(a); }); } else { k.in("A", a).out("invA", b); k.run([&]() { PML::inv(b, a); }); }
    k.check(b.length() == n && normalized(b), "inv: length"); for (long i = 0; i < n; i++) k.check(b[i] * a0[i] == 1, S("inv: entry " << i << " is not inverted"));
    Vec<mulmod_precon_t> pre; if (r.chance(50)) precomp(pre, a0); else pre = precomp(a0); k.check(pre.length() == n, "precomp: length"); for (long i = 0; i < n; i++) { long x = rep(rc(r)); k.check(MulModPrecon(x, rep(a0[i]), p, pre[i]) == MulMod(x, rep(a0[i]), p), "precomp: entry does not serve its operand"); }
}
OP("C16", order_, 60, 1500, 5000)
{
    Rng &r = k.rng; long p; if (r.chance(60)) { p = r.chance(40) ? r.in(2, 40) : r.in(2, k.sz(300, 2000, 9000)); } else p = NextPrime(r.in(2, k.sz(300, 4000, 20000))); zz_p::init(p); zz_p a = rc(r); k.d << "m=" << p << " a=" << a; long o = -2; k.run([&]() { o = order(a); });
    long want = -1; if (gcdl(rep(a), p) == 1) { zz_p t = a; want = 1; while (t != 1) { t *= a; want++; } } k.check(o == want, S("order: " << o << " instead of " << want));
}
OP("C16", element_order, 60, 1500, 5000)
{
    Rng &r = k.rng; long p = anymod(k, 25); bool strong = r.chance(70); bool comp = !ProbPrime(p); if (comp) strong = true; long mx = k.sz(40, 150, 600), ord = r.in(1, std::min(p - 1, mx)), tr = r.chance(50) ? 100 : r.in(1, 30); k.d << "ord=" << ord << " trials=" << tr << " strong=" << strong; zz_p a = rnz(r); int w = r.below(3);
    k.out("a", a); k.run([&]() { if (w == 0) element_of_order(a, ord, tr, strong); else if (w == 1) a = element_of_order(ord, tr, strong); else { strong = true; element_of_order(a, ord); } });
    k.check(rep(a) >= 0 && rep(a) < p, "element_of_order: unreduced"); if (a == 0) { k.tag("none"); k.nontriv = false;
        if (!comp && tr >= 30 && p > 1000000L * ord) k.fail("element_of_order: found no element although almost all qualify"); return; }
    k.check(gcdl(rep(a), p) == 1 || !strong, "element_of_order: not a unit"); zz_p t = a; for (long i = 1; i < ord; i++) { k.check(t != 1, S("element_of_order: order only " << i)); if (strong) k.check(gcdl(rep(t - 1), p) == 1, S("element_of_order: a^" << i << "-1 is not a unit")); t *= a; }
}
OP("C16", const_matrices, 40, 800, 3000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, 12); zz_p c = rc(r); CM z = Z_lzz_p(n, c), j = J_lzz_p(n); CV d = rcv(r, r.in(0, 12)); CM D = diagonal_matrix(d); k.d << "n=" << n; k.calls += 3;
    k.check(z.NumRows() == n && z.NumCols() == n && j.NumRows() == n && j.NumCols() == n && D.NumRows() == d.length() && D.NumCols() == d.length(), "special matrices: dimensions");
    for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) { k.check(z[a][b] == (a == b + 1 ? to_zz_p(1) : a == 0 && b == n - 1 ? c : to_zz_p(0)), "Z_lzz_p"); k.check(j[a][b] == (a + b == n - 1 ? 1 : 0), "J_lzz_p"); }
    for (long a = 0; a < d.length(); a++) for (long b = 0; b < d.length(); b++) k.check(D[a][b] == (a == b ? d[a] : to_zz_p(0)), "diagonal_matrix");
}
OP("C16", prime_type, 30, 300, 600)
{
    Rng &r = k.rng; int w = r.below(3); long p; if (w == 0) { p = setmod(k, K_FFT | K_UFFT); long e = r.in(0, 40); k.check(is_FFT_prime() && type_of_prime() == TYPE_FFT_PRIME, "type_of_prime: FFT prime"); bool rd = is_FFT_ready(e); k.check(rd == (e <= zz_pInfo->MaxRoot), "is_FFT_ready"); }
    else { p = setmod(k, w == 1 ? K_SMALL | K_TINY : K_BIG | K_MID); k.check(!is_FFT_prime() && !is_FFT_ready(r.in(0, 30)), "is_FFT_prime"); k.check(type_of_prime() == (p < (1L << 25) ? TYPE_SMALL_PRIME : TYPE_LARGE_PRIME), "type_of_prime"); }
}

OP("C16", clear_submatrix, 30, 400, 1500)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.in(0, 8), n = r.in(0, 8), i0 = r.in(0, 9), j0 = r.in(0, 9), a = r.in(0, 10), b = r.in(0, 10); CM M = rcm(r, m, n), N = M; k.d << m << "x" << n << " at " << i0 << "," << j0 << " size " << a << "x" << b;
    k.inout("mat", M); k.run([&]() { clear(M, i0, j0, a, b); }); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (i >= i0 && i < i0 + a && j >= j0 && j < j0 + b) N[i][j] = 0; k.check(same(M, N), "clear of a submatrix");
}
