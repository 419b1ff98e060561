// C01: polynomial matrix products are exact
#include "common.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
PML_CLIENT

static bool close_prod(Ctx &k, const PM &a, const PM &b, const PM &c)
{
    double cost = (double)a.NumRows() * a.NumCols() * b.NumCols() * (rdeg(a) + rdeg(b) + 2);
    if (cost < 3e6 || zz_p::modulus() < (1L << 20)) { if (!normalized(c)) return false; return same(rmul(a, b), c); }
    return normalized(c) && rdeg(c) <= std::max(-1L, rdeg(a) + rdeg(b)) && freivalds(k.rng, a, b, c, 2);
}

typedef void (*MulFn)(PM &, const PM &, const PM &);
static void mul_default(PM &c, const PM &a, const PM &b) { multiply(c, a, b); }
static void mul_notprime(PM &c, const PM &a, const PM &b) { multiply(c, a, b, 0); }
static void mul_operator(PM &c, const PM &a, const PM &b) { PM t = a * b; c = t; }

// run c = f(a,b) under a random aliasing pattern and check the product
static void prod_case(Ctx &k, MulFn f, PM a, PM b, bool alias_ok = true)
{
    PM a0 = a, b0 = b, c;
    int al = alias_ok ? k.rng.below(6) : 0;
    k.d << " a=" << dims(a) << " b=" << dims(b) << " alias=" << (al < 3 ? 0 : al);
    if (al == 3) { k.in("b", b).inout("a", a); k.run([&]() { f(a, a, b); }); c = a; }
    else if (al == 4) { k.in("a", a).inout("b", b); k.run([&]() { f(b, a, b); }); c = b; }
    else if (al == 5 && a.NumRows() == a.NumCols()) { b0 = a0; k.inout("a", a); k.run([&]() { f(a, a, a); }); c = a; }
    else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { f(c, a, b); }); }
    if (!close_prod(k, a0, b0, c))
        k.fail(S("product differs from the definition: got " << show(c) << " for a=" << show(a0) << " b=" << show(b0)));
    k.checks++;
}

// dimensions: mixes 1, small, rectangular and occasionally larger
static void pick_dims(Ctx &k, long &m, long &n, long &p, long mx)
{
    Rng &r = k.rng;
    switch (r.below(6)) {
    case 0: m = 1; n = r.in(1, mx); p = r.in(1, mx); break;
    case 1: m = r.in(1, mx); n = r.in(1, 2); p = r.in(1, mx); break;
    case 2: m = r.in(1, mx); n = r.in(1, mx); p = 1; break;
    case 3: m = n = p = r.in(1, mx); break;
    default: m = r.in(1, mx); n = r.in(1, mx); p = r.in(1, mx);
    }
}
static long pick_len(Ctx &k, long mx) { long a = k.rng.in(0, 3); return a == 0 ? k.rng.in(1, 7) : a == 1 ? k.rng.in(1, 32) : k.rng.in(1, mx); }

OP("C01", mul_general, 150, 1500, 8000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(5, 12, 24));
    long la = pick_len(k, k.sz(40, 150, 400)), lb = k.rng.chance(50) ? la : pick_len(k, k.sz(40, 150, 400));
    int w = k.rng.below(8);
    prod_case(k, w == 0 ? mul_notprime : w == 1 ? mul_operator : mul_default, rmatS(k.rng, m, n, la), rmatS(k.rng, n, p, lb));
}

// shapes aimed at every dispatch region (transform / waksman / dense / FFT / 3 primes) incl. their boundaries
OP("C01", mul_dispatch, 60, 800, 4000)
{
    setmod(k, K_ALL);
    static const long szs[] = {1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 19, 20, 21, 30, 31, 40};
    long s = szs[k.rng.below(k.upto(7, 12, 16))];
    static const long ds[] = {1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 25, 26, 63, 64, 80, 81, 90, 91, 127, 128, 150, 151, 199, 200, 201, 250, 251, 300};
    long da = ds[k.rng.below(k.upto(14, s > 12 ? 16 : 29, s > 20 ? 20 : 29))], db = k.rng.chance(60) ? da : k.rng.in(1, da);
    PM a = rmat(k.rng, s, s, da + 1), b = rmat(k.rng, s, s, db + 1);
    prod_case(k, mul_default, a, b);
}

// wide ranges: larger sizes, checked probabilistically (one-sided)
OP("C01", mul_large, 0, 24, 120)
{
    setmod(k, K_LARGEONLY | K_MID);
    long s = k.rng.in(20, k.sz(20, 55, 90)), d = k.rng.in(10, k.sz(20, 120, 300));
    long m = k.rng.in(s / 2, s), n = k.rng.in(s / 2, s), p = k.rng.in(s / 2, s);
    prod_case(k, mul_default, rmat(k.rng, m, n, d + 1), rmat(k.rng, n, p, k.rng.in(d / 2, d) + 1));
}

// many terms per inner product: accumulators of every FFT variant must not overflow
OP("C01", mul_inner_dim, 6, 160, 800)
{
    setmod(k, K_ALL);
    static const long ns[] = {63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 509, 510, 511, 600};
    long n = ns[k.rng.below(k.upto(8, 16, 16))];
    long m = k.rng.in(1, 3), p = k.rng.in(1, 3), la = k.rng.in(2, k.sz(12, 40, 80)), lb = k.rng.in(2, k.sz(12, 40, 80));
    PM a = rmat(k.rng, m, n, la), b = rmat(k.rng, n, p, lb);
    if (k.rng.chance(40)) { // extreme coefficients
        for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) for (long t = 0; t < la; t++) SetCoeff(a[i][j], t, to_zz_p(zz_p::modulus() - 1));
        for (long i = 0; i < n; i++) for (long j = 0; j < p; j++) for (long t = 0; t < lb; t++) SetCoeff(b[i][j], t, to_zz_p(zz_p::modulus() - 1));
    }
    static const MulFn fs[] = {mul_default, multiply_evaluate_FFT, multiply_evaluate_FFT_direct, multiply_evaluate_FFT_direct_ll_type, multiply_evaluate_FFT_matmul1, multiply_3_primes};
    long w = k.rng.below(6);
    if (w >= 1 && w <= 4 && !is_FFT_ready(NextPowerOfTwo(la + lb))) w = 5;
    if (rdeg(a) < 0 || rdeg(b) < 0) w = 0;
    k.d << "alg" << w;
    prod_case(k, fs[w], a, b);
}

OP("C01", mul_empty, 40, 150, 400)
{
    setmod(k, K_ALL);
    long m = k.rng.in(0, 3), n = k.rng.in(0, 3), p = k.rng.in(0, 3), l = k.rng.in(0, 20);
    switch (k.rng.below(4)) { case 0: m = 0; break; case 1: n = 0; break; case 2: p = 0; break; default: l = 0; }
    k.nontriv = true;
    prod_case(k, mul_default, rmat(k.rng, m, n, l), rmat(k.rng, n, p, l));
}

OP("C01", mul_naive_waksman, 80, 700, 3000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(6, 9, 15));
    long la = pick_len(k, k.sz(20, 60, 120)), lb = pick_len(k, k.sz(20, 60, 120));
    bool w = k.rng.chance(70); k.d << (w ? "waksman " : "naive ");
    prod_case(k, w ? multiply_waksman : multiply_naive, rmatS(k.rng, m, n, la), rmatS(k.rng, n, p, lb));
}

OP("C01", mul_transform, 80, 700, 3000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(5, 9, 15));
    int w = k.rng.below(6);
    long L = w == 0 ? k.rng.in(2, 12) : w == 1 ? 2 : w == 2 ? 3 : w == 3 ? 4 : k.rng.in(2, 9);
    PM a = rmatS(k.rng, m, n, L), b = rmatS(k.rng, n, p, L);
    a[0][0] = rpoly(k.rng, L); SetCoeff(a[0][0], L - 1, 1); SetCoeff(b[0][0], 0, 1);   // keeps both nonzero, max degree L-1
    k.d << "w" << w << " L" << L;
    static const MulFn fs[] = {multiply_transform_naive, multiply_transform_karatsuba, multiply_transform_montgomery3, multiply_transform_karatsuba4};
    if (w < 4) prod_case(k, fs[w], a, b);
    else if (w == 4) prod_case(k, [](PM &c, const PM &x, const PM &y) { multiply_transform(c, x, y); }, a, b);
    else prod_case(k, [](PM &c, const PM &x, const PM &y) { multiply_transform(c, x, y, std::max(deg(x), deg(y)) + 1); }, a, b);
}

OP("C01", mul_evaluate, 120, 1300, 6000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(5, 10, 20));
    long la = k.rng.in(1, k.sz(16, 60, 120)), lb = k.rng.in(1, k.sz(16, 60, 120));
    long pr = zz_p::modulus();
    static const MulFn fs[] = {multiply_evaluate_dense, multiply_evaluate_dense2, multiply_evaluate_FFT, multiply_evaluate_FFT_matmul1, multiply_evaluate_FFT_matmul2,
                               multiply_evaluate_FFT_matmul3, multiply_evaluate_FFT_direct_ll_type, multiply_evaluate_FFT_direct, multiply_3_primes, multiply_evaluate_geometric};
    int w = k.rng.below(10);
    if (w <= 1 && pr <= 2 * (la + lb + 1)) { la = k.rng.in(1, 3); lb = k.rng.in(1, 3); if (pr <= 2 * (la + lb + 1)) w = 8; }
    PM a = rmatS(k.rng, m, n, la), b = rmatS(k.rng, n, p, lb);
    if (rdeg(a) < 0) SetCoeff(a[0][0], la - 1, 1);
    if (rdeg(b) < 0) SetCoeff(b[0][0], lb - 1, 1);
    if (w >= 2 && w <= 7 && !is_FFT_ready(NextPowerOfTwo(la + lb))) w = 8;
    if (w == 9 && pr < 10 * (la + lb) * (la + lb) + 1000) w = 8;   // needs an element of large enough order
    k.d << "alg" << w; k.tag(S("alg" << w));
    prod_case(k, fs[w], a, b);
}

OP("C01", mul_zero_operand_geometric, 6, 30, 60)
{
    setmod(k, K_LARGEONLY);
    long m = k.rng.in(1, 5), n = k.rng.in(1, 5), p = k.rng.in(1, 5);
    PM a = rmat(k.rng, m, n, k.rng.chance(50) ? 0 : 4), b = rmat(k.rng, n, p, 3);
    if (rdeg(a) >= 0) b = rzero(n, p);
    prod_case(k, multiply_evaluate_geometric, a, b);
}

OP("C01", mul_composite_modulus, 20, 200, 800)
{
    // is_prime = 0: the ring is Z/n with n composite
    long n0; switch (k.rng.below(4)) { case 0: n0 = k.rng.in(2, 60) * 2; break; case 1: n0 = 3 * k.rng.in(100, 10000); break; case 2: n0 = k.rng.in(1L << 30, 1L << 40) * 2; break; default: n0 = k.rng.in(1000, 100000) * k.rng.in(1000, 100000); }
    zz_p::init(n0); k.d << "composite n=" << n0;
    long m, n, p; pick_dims(k, m, n, p, k.sz(5, 8, 12));
    long la = pick_len(k, 60), lb = pick_len(k, 60);
    // stay off Waksman's algorithm, which needs 1/2: documented nowhere, see DESIGN.md
    prod_case(k, mul_notprime, rmat(k.rng, m, n, la), rmat(k.rng, n, p, lb));
}

OP("C01", mul_vector, 60, 500, 2500)
{
    setmod(k, K_ALL);
    long m = k.rng.in(1, k.sz(5, 9, 16)), n = k.rng.in(1, k.sz(5, 9, 16)), la = pick_len(k, k.sz(30, 120, 250)), lb = pick_len(k, k.sz(30, 120, 250));
    PM a = rmatS(k.rng, m, n, la); k.d << "a=" << dims(a) << " lb" << lb;
    int w = k.rng.below(5);
    PV c;
    if (w < 2) {
        PV b = rvec(k.rng, n, lb); PM B; B.SetDims(n, 1); for (long i = 0; i < n; i++) B[i][0] = b[i];
        if (w == 0) { k.in("a", a).in("b", b).out("c", c); k.run([&]() { multiply(c, a, b); }); }
        else { k.in("a", a).inout("b", b); k.run([&]() { multiply(b, a, b); }); c = b; }
        PM R = rmul(a, B); k.check(c.length() == m && normalized(c), "vector length / normal form");
        for (long i = 0; i < m; i++) k.check(c[i] == R[i][0], S("matrix*vector entry " << i));
    } else if (w < 4) {
        PV b = rvec(k.rng, m, lb); PM B; B.SetDims(1, m); for (long i = 0; i < m; i++) B[0][i] = b[i];
        if (w == 2) { k.in("a", a).in("b", b).out("c", c); k.run([&]() { multiply(c, b, a); }); }
        else { k.in("a", a).inout("b", b); k.run([&]() { multiply(b, b, a); }); c = b; }
        PM R = rmul(B, a); k.check(c.length() == n && normalized(c), "vector length / normal form");
        for (long i = 0; i < n; i++) k.check(c[i] == R[0][i], S("vector*matrix entry " << i));
    } else {
        PV b = rvec(k.rng, n, lb), bl = rvec(k.rng, m, lb), c2;
        k.in("a", a); k.run([&]() { c = a * b; c2 = bl * a; });
        for (long i = 0; i < m; i++) { zz_pX t; for (long j = 0; j < n; j++) t += a[i][j] * b[j]; k.check(c[i] == t, "operator* M*v"); }
        for (long i = 0; i < n; i++) { zz_pX t; for (long j = 0; j < m; j++) t += bl[j] * a[j][i]; k.check(c2[i] == t, "operator* v*M"); }
    }
}

OP("C01", mul_constant_matrix, 60, 400, 2000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(5, 9, 16));
    long l = pick_len(k, k.sz(20, 60, 120));
    CM a = rcm(k.rng, m, n); PM b = rmatS(k.rng, n, p, l), c;
    CM a2 = rcm(k.rng, n, p); PM b2 = rmatS(k.rng, m, n, l);
    int w = k.rng.below(4); k.d << m << "x" << n << "x" << p << " l" << l << " w" << w;
    PM R;
    if (w == 0) { k.in("a", a).in("b", b).out("c", c); k.run([&]() { mul(c, a, b); }); R = rmul(a, b); }
    else if (w == 1) { k.in("a", a2).in("b", b2).out("c", c); k.run([&]() { mul(c, b2, a2); }); R = rmul(b2, a2); }
    else if (w == 2) { R = rmul(a, b); k.in("a", a).inout("b", b); k.run([&]() { mul(b, a, b); }); c = b; }
    else { R = rmul(b2, a2); k.in("a", a2).inout("b", b2); k.run([&]() { mul(b2, b2, a2); }); c = b2; }
    k.check(normalized(c) && same(c, R), S("constant-matrix product differs: " << show(c) << " expected " << show(R)));
}

OP("C01", mul_truncated, 50, 400, 2000)
{
    setmod(k, K_ALL);
    long m, n, p; pick_dims(k, m, n, p, k.sz(4, 8, 14));
    long la = pick_len(k, k.sz(20, 80, 160)), lb = pick_len(k, k.sz(20, 80, 160)), d = k.rng.in(0, la + lb + 2);
    PM a = rmatS(k.rng, m, n, la), b = rmatS(k.rng, n, p, lb), c; k.d << m << "x" << n << "x" << p << " " << la << "," << lb << " d" << d;
    PM R = rtrunc(rmul(a, b), d);
    if (k.rng.chance(30)) { k.in("b", b).inout("a", a); k.run([&]() { mul_trunc(a, a, b, d); }); c = a; }
    else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { mul_trunc(c, a, b, d); }); }
    k.check(normalized(c) && same(c, R), "truncated product");
}

// leading coefficients that vanish modulo one of the CRT primes but not modulo the modulus: the residue images have different degrees
OP("C01", mul_crt_edge, 30, 500, 2000)
{
    setmod(k, K_BIG | K_MID | K_LARGEONLY); Rng &r = k.rng; if (r.chance(40)) { zz_p::init(NextPrime(1000000000000000000L + r.below(150000000000000000L))); k.d << "p=" << zz_p::modulus() << " "; }
    long m = r.in(1, 4), n = r.in(2, r.chance(80) ? 4 : 12), p = r.in(1, 4), la = r.in(1, 40), lb = r.in(1, 40);
    PM a = rmat(r, m, n, la), b = rmat(r, n, p, lb); CV u, v; if (!crt_edge(r, u, v, n)) throw Skip{};
    long i = r.below(m), j = r.below(p); if (r.chance(30)) for (long x = 0; x < m; x++) for (long y = 0; y < n; y++) if (x != i) trunc(a[x][y], a[x][y], la - 1);
    for (long t = 0; t < n; t++) { SetCoeff(a[i][t], la - 1, u[t]); SetCoeff(b[t][j], lb - 1, v[t]); }
    k.d << "entry " << i << "," << j; prod_case(k, r.chance(70) ? multiply_3_primes : mul_default, a, b);
}
// inner dimension beyond one accumulation slice, normalized and unnormalized FFT primes
OP("C01", mul_inner_slices, 4, 60, 300)
{
    setmod(k, K_FFT | K_UFFT); Rng &r = k.rng; long n = r.chance(50) ? r.in(250, 262) : r.chance(50) ? r.in(508, 514) : r.in(256, 800), m = r.in(1, 3), p = r.in(1, 2), la = r.in(1, 5), lb = r.in(1, 5);
    PM a = rmat(r, m, n, la), b = rmat(r, n, p, lb); if (r.chance(60)) { zz_p t = to_zz_p(zz_p::modulus() - 1); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) for (long e = 0; e < la; e++) SetCoeff(a[i][j], e, t); for (long i = 0; i < n; i++) for (long j = 0; j < p; j++) for (long e = 0; e < lb; e++) SetCoeff(b[i][j], e, t); }
    static const MulFn fs[] = {multiply_evaluate_FFT_direct_ll_type, multiply_evaluate_FFT_direct_ll_type, multiply_evaluate_FFT_direct, multiply_evaluate_FFT_matmul1, multiply_evaluate_FFT_matmul2, multiply_evaluate_FFT_matmul3, multiply_evaluate_FFT};
    int w = r.below(7); k.d << "alg" << w; k.tag(S("alg" << w)); prod_case(k, fs[w], a, b);
}
// every region of the FFT dispatcher, on both sides of its thresholds, for small and for large FFT primes
OP("C01", mul_fft_regions, 0, 50, 300)
{
    Rng &r = k.rng; bool small = r.chance(55);
    if (small) { static const long ps[] = {7340033, 5767169, 13631489, 23068673}; long p = ps[r.below(4)]; zz_p::UserFFTInit(p); k.d << "p=" << p << " "; } else setmod(k, K_FFT);
    static const long ss[] = {3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 19, 20, 21, 24, 25, 26, 30}, dd[] = {20, 31, 32, 33, 49, 50, 51, 64, 65, 79, 80, 81, 89, 90, 99, 100, 101, 102, 120, 255, 257, 300, 513, 520, 1299, 1301};
    long s = ss[r.below(17)], d = dd[r.below(s > 24 ? 12 : s > 16 ? 18 : s > 9 ? 20 : s > 8 ? 22 : 26)]; if (k.tier && r.chance(4)) { s = r.in(44, 50); d = r.in(20, 40); }
    long la = std::max(1L, d + r.in(-d / 3, d / 3)), lb = std::max(1L, 2 * d - la), n = std::max(1L, r.in(s - 1, s + 1)), q = std::max(1L, r.in(s - 1, s + 1));
    k.tag(S((small ? "small" : "large") << (s < 9 ? "<9" : s < 17 ? "<17" : s < 25 ? "<25" : ">=25") << (d < 32 ? "d<32" : d <= 50 ? "d<=50" : d <= 100 ? "d<=100" : d <= 512 ? "d<=512" : "d>512")));
    prod_case(k, r.chance(70) ? multiply_evaluate_FFT : mul_default, rmat(r, s, n, la + 1), rmat(r, n, q, lb + 1));
}
