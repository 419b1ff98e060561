// C02: middle products are exact
#include "common.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_pX_middle_product.h"
#include "lzz_p_extra.h"
PML_CLIENT

static zz_pX ref_mp(const zz_pX &a, const zz_pX &c, long dA, long dB)
{
    zz_pX t = trunc(a, dA + 1) * c, r;
    for (long i = 0; i <= dB; i++) SetCoeff(r, i, coeff(t, dA + i));
    return r;
}
static PM ref_mp(const PM &a, const PM &c, long dA, long dB) { return rslice(rmul(rtrunc(a, dA + 1), c), dA, dB + 1); }

static void draw_deg(Ctx &k, long &dA, long &dB, long mx)
{
    switch (k.rng.below(6)) {
    case 0: dA = k.rng.in(0, 4); dB = k.rng.in(0, mx); break;
    case 1: dA = k.rng.in(0, mx); dB = k.rng.in(0, 4); break;
    case 2: dA = dB = k.rng.in(0, mx); break;
    case 3: dA = k.rng.in(12, 20); dB = k.rng.in(12, 20); break;
    default: dA = k.rng.in(0, mx); dB = k.rng.in(0, mx);
    }
}

OP("C02", mp_univariate, 300, 8000, 40000)
{
    setmod(k, K_ALL);
    long dA, dB; draw_deg(k, dA, dB, k.sz(80, k.rng.chance(10) ? 600 : 120, k.rng.chance(10) ? 3000 : 300));
    zz_pX a = k.rng.chance(70) ? rpoly(k.rng, dA + 1) : rpolyS(k.rng, dA + 1), c = k.rng.chance(70) ? rpoly(k.rng, dA + dB + 1) : rpolyS(k.rng, dA + dB + 1), b;
    if (k.rng.chance(15)) a = rpoly(k.rng, dA + 1 + k.rng.in(1, 10));   // longer a is truncated by definition
    int w = k.rng.below(6);
    k.d << "dA" << dA << " dB" << dB << " dega" << deg(a) << " degc" << deg(c) << " w" << w;
    zz_pX R = ref_mp(a, c, dA, dB);
    if (w == 0) { k.in("c", c).inout("a", a); k.run([&]() { middle_product(a, a, c, dA, dB); }); b = a; }
    else if (w == 1) { k.in("a", a).inout("c", c); k.run([&]() { middle_product(c, a, c, dA, dB); }); b = c; }
    else if (w == 2) { k.in("a", a).in("c", c); k.run([&]() { b = middle_product(a, c, dA, dB); }); }
    else if (w == 3 && dA == dB) { k.in("a", a).in("c", c); k.run([&]() { b = middle_product(a, c, dA + 1); }); }
    else { k.in("a", a).in("c", c).out("b", b); k.run([&]() { middle_product(b, a, c, dA, dB); }); }
    k.check(normalized(b) && b == R, "univariate middle product differs");
}

// long operands with a small other side and mid-size primes: delayed reductions
OP("C02", mp_univariate_unbalanced, 100, 1500, 6000)
{
    setmod(k, k.rng.chance(50) ? K_ALL : K_MID | K_UFFT);
    long dA = k.rng.in(0, 20), dB = k.rng.in(20, k.sz(300, 1500, 4000));
    if (k.rng.chance(60)) std::swap(dA, dB);
    zz_pX a, c, b;
    if (k.rng.chance(60)) { a = rpoly(k.rng, dA + 1); c = rpoly(k.rng, dA + dB + 1); }
    else { zz_p m = to_zz_p(zz_p::modulus() - 1); for (long i = dA; i >= 0; i--) SetCoeff(a, i, m); for (long i = dA + dB; i >= 0; i--) SetCoeff(c, i, m); }
    k.d << "dA" << dA << " dB" << dB;
    k.in("a", a).in("c", c).out("b", b); k.run([&]() { middle_product(b, a, c, dA, dB); });
    k.check(normalized(b) && b == ref_mp(a, c, dA, dB), "univariate middle product (unbalanced) differs");
}

OP("C02", mp_univariate_fft, 60, 1000, 4000)
{
    setmod(k, K_ALL);
    long dA, dB; draw_deg(k, dA, dB, k.sz(80, 200, 500));
    zz_pX a = rpoly(k.rng, dA + 1), c = rpoly(k.rng, dA + dB + 1), b;
    k.d << "dA" << dA << " dB" << dB;
    if (k.rng.chance(50)) { k.in("a", a).in("c", c).out("b", b); k.run([&]() { middle_FFT(b, a, c, dA, dB); }); }
    else { dB = dA; c = rpoly(k.rng, 2 * dA + 1); k.in("a", a).in("c", c).out("b", b); k.run([&]() { middle_FFT(b, a, c, dA + 1); }); }
    k.check(normalized(b) && b == ref_mp(a, c, dA, dB), "middle_FFT differs");
}

typedef void (*MpFn)(PM &, const PM &, const PM &, long, long);
static void mp_default(PM &b, const PM &a, const PM &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }
static void mp_notprime(PM &b, const PM &a, const PM &c, long dA, long dB) { middle_product(b, a, c, dA, dB, 0); }
static void mp_return(PM &b, const PM &a, const PM &c, long dA, long dB) { b = middle_product(a, c, dA, dB); }

static void mp_case(Ctx &k, MpFn f, PM a, PM c, long dA, long dB, bool rev = false)
{
    PM R;
    if (!rev) R = ref_mp(a, c, dA, dB);
    else { PM ra = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { zz_pX t; for (long e = 0; e <= dA; e++) SetCoeff(t, dA - e, coeff(a[i][j], e)); ra[i][j] = t; } R = ref_mp(ra, c, dA, dB); }
    int al = k.rng.below(5); PM b;
    k.d << " a=" << dims(a) << " c=" << dims(c) << " dA" << dA << " dB" << dB << " alias" << al;
    if (al == 0) { k.in("c", c).inout("a", a); k.run([&]() { f(a, a, c, dA, dB); }); b = a; }
    else if (al == 1) { k.in("a", a).inout("c", c); k.run([&]() { f(c, a, c, dA, dB); }); b = c; }
    else { k.in("a", a).in("c", c).out("b", b); k.run([&]() { f(b, a, c, dA, dB); }); }
    k.check(normalized(b), "entries not normalized");
    k.check(same(b, R), S("matrix middle product differs: got " << show(b) << " expected " << show(R)));
}

OP("C02", mp_matrix, 200, 3000, 12000)
{
    setmod(k, K_ALL);
    long mx = k.sz(4, 8, 14);
    long m = k.rng.in(1, mx), n = k.rng.in(1, mx), p = k.rng.in(1, mx);
    long dA, dB; draw_deg(k, dA, dB, k.sz(30, 60, 130));
    PM a = rmatS(k.rng, m, n, dA + 1), c = rmatS(k.rng, n, p, dA + dB + 1);
    int w = k.rng.below(8);
    mp_case(k, w == 0 ? mp_notprime : w == 1 ? mp_return : mp_default, a, c, dA, dB);
}

OP("C02", mp_dispatch, 40, 700, 3000)
{
    setmod(k, K_ALL);
    static const long szs[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 21, 30};
    long s = szs[k.rng.below(k.upto(6, 11, 14))];
    static const long ds[] = {0, 1, 4, 5, 6, 15, 16, 24, 25, 26, 49, 50, 51, 79, 80, 81, 90, 91, 199, 200, 201, 249, 250, 251};
    long dA = ds[k.rng.below(k.upto(10, s > 8 ? 17 : 24, s > 11 ? 14 : 24))], dB = k.rng.chance(50) ? dA : ds[k.rng.below(k.upto(10, 17, 17))];
    mp_case(k, mp_default, rmat(k.rng, s, s, dA + 1), rmat(k.rng, s, s, dA + dB + 1), dA, dB);
}

OP("C02", mp_matrix_large, 0, 30, 150)
{
    setmod(k, K_LARGEONLY | K_MID | K_UFFT);
    long s = k.rng.in(18, k.sz(18, 48, 60)), dA = k.rng.in(1, 24), dB = k.rng.in(1, 24);
    mp_case(k, k.rng.chance(60) ? mp_default : mp_notprime, rmat(k.rng, s, s, dA + 1), rmat(k.rng, s, s, dA + dB + 1), dA, dB);
}

OP("C02", mp_algorithms, 150, 2500, 10000)
{
    setmod(k, K_ALL);
    static const MpFn fs[] = {middle_product_naive, middle_product_3_primes, middle_product_evaluate_FFT_direct_ll_type, middle_product_evaluate_FFT_direct, middle_product_evaluate_FFT_matmul,
                              middle_product_evaluate_FFT_matmul1, middle_product_evaluate_FFT_matmul2, middle_product_evaluate_FFT_matmul3, middle_product_evaluate_FFT, middle_product_evaluate_FFT_new,
                              middle_product_evaluate_dense, t_multiply_evaluate_geometric};
    int w = k.rng.below(12);
    long mx = k.sz(4, 9, 18);
    long m = k.rng.in(1, mx), n = k.rng.in(1, mx), p = k.rng.in(1, mx);
    if (w == 2 && k.rng.chance(10)) { n = k.rng.pick(std::vector<long>{254, 255, 256, 257, 511}); m = k.rng.in(1, 2); p = 1; }
    long dA, dB; draw_deg(k, dA, dB, k.sz(20, 50, 110));
    long pr = zz_p::modulus();
    if (w == 10 && pr <= 2 * (dA + dB + 1)) w = 1;
    if (w >= 2 && w <= 9 && !is_FFT_ready(NextPowerOfTwo(dA + dB + 1))) w = 1;
    if (w == 9 && pr <= 2 * (dA + dB + 1)) w = 8;
    if (w == 11 && pr < 10 * (dA + dB + 1) * (dA + dB + 1) + 1000) w = 0;
    PM a = rmatS(k.rng, m, n, dA + 1), c = rmatS(k.rng, n, p, dA + dB + 1);
    k.d << "alg" << w; k.tag(S("alg" << w));
    mp_case(k, fs[w], a, c, dA, dB, w == 11);
}

OP("C02", mp_inner_dim, 5, 60, 300)
{
    setmod(k, K_ALL);
    long n = k.rng.pick(std::vector<long>{63, 64, 127, 128, 254, 255, 256, 257, 300, 511}); if (k.tier == 0) n = std::min(n, 128L);
    long m = k.rng.in(1, 3), p = k.rng.in(1, 3), dA = k.rng.in(0, 20), dB = k.rng.in(0, 20);
    mp_case(k, mp_default, rmat(k.rng, m, n, dA + 1), rmat(k.rng, n, p, dA + dB + 1), dA, dB);
}
OP("C02", mp_composite, 10, 200, 800)
{
    long n0 = k.rng.chance(50) ? 2 * k.rng.in(2, 5000) : k.rng.in(1000, 1000000) * k.rng.in(1000, 1000000);
    zz_p::init(n0); k.d << "composite n=" << n0;
    long m = k.rng.in(1, 6), n = k.rng.in(1, 6), p = k.rng.in(1, 6), dA, dB; draw_deg(k, dA, dB, 40);
    mp_case(k, mp_notprime, rmat(k.rng, m, n, dA + 1), rmat(k.rng, n, p, dA + dB + 1), dA, dB);
}

OP("C02", mp_crt_edge, 30, 500, 2000)
{
    setmod(k, K_BIG | K_MID | K_LARGEONLY); Rng &r = k.rng; if (r.chance(40)) { zz_p::init(NextPrime(1000000000000000000L + r.below(150000000000000000L))); k.d << "p=" << zz_p::modulus() << " "; }
    long m = r.in(1, 4), n = r.in(2, r.chance(80) ? 4 : 12), p = r.in(1, 4), dA = r.in(0, 30), dB = r.in(0, 30); PM a = rmat(r, m, n, dA + 1), c = rmat(r, n, p, dA + dB + 1); CV u, v; if (!crt_edge(r, u, v, n)) throw Skip{};
    long i = r.below(m), j = r.below(p);
    for (long t = 0; t < n; t++) { for (long e = dB; e < dA + dB; e++) SetCoeff(c[t][j], e, 0); SetCoeff(a[i][t], 0, u[t]); SetCoeff(c[t][j], dA + dB, v[t]); }
    k.d << "entry " << i << "," << j; mp_case(k, r.chance(70) ? middle_product_3_primes : mp_default, a, c, dA, dB);
}
OP("C02", mp_inner_slices, 3, 60, 300)
{
    setmod(k, K_FFT | K_UFFT); Rng &r = k.rng; long n = r.chance(50) ? r.in(250, 262) : r.chance(50) ? r.in(508, 514) : r.in(256, 800), m = r.in(1, 2), p = r.in(1, 2), dA = r.in(0, 4), dB = r.in(0, 4);
    PM a = rmat(r, m, n, dA + 1), c = rmat(r, n, p, dA + dB + 1); if (r.chance(60)) { zz_p t = to_zz_p(zz_p::modulus() - 1); for (long j = 0; j < n; j++) { for (long e = 0; e <= dA; e++) SetCoeff(a[0][j], e, t); for (long e = 0; e <= dA + dB; e++) SetCoeff(c[j][0], e, t); } }
    static const MpFn fs[] = {middle_product_evaluate_FFT_direct_ll_type, middle_product_evaluate_FFT_direct_ll_type, middle_product_evaluate_FFT_direct, middle_product_evaluate_FFT_matmul1, middle_product_evaluate_FFT_matmul2, middle_product_evaluate_FFT_matmul3, middle_product_evaluate_FFT, middle_product_evaluate_FFT_new};
    int w = r.below(8); if (w == 7 && zz_p::modulus() <= 2 * (dA + dB + 1)) w = 6; k.d << "alg" << w; k.tag(S("alg" << w)); mp_case(k, fs[w], a, c, dA, dB);
}
// regions of the FFT dispatch with larger dimensions, primes below and above the small-prime bound
OP("C02", mp_fft_regions, 0, 60, 300)
{
    Rng &r = k.rng; if (r.chance(60)) { long p = r.chance(50) ? 7340033 : 5767169; zz_p::UserFFTInit(p); k.d << "p=" << p << " "; } else setmod(k, K_FFT);
    static const long ss[] = {3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 20, 21, 24, 25, 26}, dd[] = {20, 31, 32, 33, 49, 50, 51, 64, 65, 79, 80, 81, 89, 90, 99, 101, 120, 257, 1301};
    long s = ss[r.below(16)], d = dd[r.below(s > 18 ? 7 : s > 8 ? 17 : 19)];
    if (k.tier && r.chance(5)) { s = 45; d = r.in(2, 20); }
    long dA = std::max(1L, d + r.in(-6, 6)), dB = std::max(0L, 2 * d - dA); long n = r.in(s - 1, s + 1), q = r.in(s - 1, s + 1);
    mp_case(k, r.chance(60) ? middle_product_evaluate_FFT_new : r.chance(50) ? middle_product_evaluate_FFT : mp_default, rmat(r, s, n, dA + 1), rmat(r, n, q, dA + dB + 1), dA, dB);
}
