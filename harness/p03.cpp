// C03: precomputed left multipliers
#include "common.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
PML_CLIENT

typedef std::unique_ptr<mat_lzz_pX_lmultiplier> LM;

// a sequence of uses of one object, with foreign work in between, every answer checked
static void use(Ctx &k, LM &ml, const PM &a, long dB, long uses, long mxcols)
{
    k.check(ml->NumRows() == a.NumRows() && ml->NumCols() == a.NumCols(), "multiplier reports wrong dimensions");
    k.check(ml->degA() == rdeg(a) && ml->degB() == dB, "multiplier reports wrong degrees");
    for (long u = 0; u < uses; u++) {
        long c = k.rng.in(1, mxcols), lb = k.rng.chance(50) ? dB + 1 : k.rng.in(0, dB + 1);
        PM b = rmatS(k.rng, a.NumCols(), c, lb), b0 = b, r;
        int al = k.rng.below(4);
        long pm = zz_p::modulus();
        if (al == 0) { k.in("b", b).out("c", r); k.run([&]() { r = ml->multiply(b); }); }
        else if (al == 1) { k.inout("b", b); k.run([&]() { ml->multiply(b, b); }); r = b; }
        else { k.in("b", b).out("c", r); k.run([&]() { ml->multiply(r, b); }); }
        k.check(zz_p::modulus() == pm, "use of a multiplier changed the modulus");
        k.check(normalized(r) && same(r, rmul(a, b0)), S("use " << u << ": product differs from the definition a=" << show(a) << " b=" << show(b0) << " got " << show(r)));
        if (k.rng.chance(30)) perturb_history(k.rng);
    }
}
static long plen(Ctx &k, long mx) { long a = k.rng.in(0, 3); return a == 0 ? k.rng.in(1, 5) : a == 1 ? k.rng.in(1, 32) : k.rng.in(1, mx); }

OP("C03", lmul_get, 150, 3000, 15000)
{
    setmod(k, K_ALL);
    long mx = k.sz(5, 10, 24), ml_ = k.sz(30, 110, 260);
    long m = k.rng.in(1, mx), n = k.rng.in(1, mx), la = plen(k, ml_), dB = plen(k, ml_) - 1;
    PM a = rmatS(k.rng, m, n, la);
    k.d << "a=" << dims(a) << " dB=" << dB;
    long pm = zz_p::modulus();
    LM l = get_lmultiplier(a, dB);
    k.check(zz_p::modulus() == pm, "building a multiplier changed the modulus");
    use(k, l, a, dB, k.rng.in(1, 4), mx);
}
// the strategy selection depends on rows and degree: visit every region
OP("C03", lmul_get_regions, 8, 250, 900)
{
    bool top = k.tier && k.rng.chance(10);
    setmod(k, top ? (int)K_BIG : (int)(K_FFT | K_BIG | K_MID | K_SMALL));
    static const long rows[] = {1, 19, 20, 21, 40, 41, 100, 101, 200, 201};
    static const long degs[] = {0, 1, 29, 30, 31, 89, 90, 91, 149, 150, 151, 200};
    long m = rows[k.rng.below(k.upto(3, 10, 10))], dA = degs[k.rng.below(k.upto(6, m > 50 ? 11 : 12, 12))];
    if (top) { m = k.rng.in(199, 204); dA = k.rng.in(148, 155); }
    long n = k.rng.in(1, m > 50 ? 2 : 5), dB = m > 50 ? k.rng.in(0, 20) : k.rng.in(0, 60);
    PM a = rmat(k.rng, m, n, dA + 1);
    k.d << "a=" << dims(a) << " dB=" << dB;
    LM l = get_lmultiplier(a, dB);
    use(k, l, a, dB, 2, 3);
}
OP("C03", lmul_direct_classes, 120, 3000, 15000)
{
    int w = k.rng.below(5);
    long mx = k.sz(5, 9, 20), ml_ = k.sz(30, 90, 200);
    long la = plen(k, ml_), dB = plen(k, ml_) - 1;
    long p = setmod(k, w < 2 ? (int)K_FFT : w == 2 ? (int)(K_LARGEONLY | K_MID) : (int)K_ALL);
    if (w == 3) while (p < la + dB) { la = (la + 1) / 2; dB /= 2; }   // needs that many distinct points
    PM a = rmatS(k.rng, k.rng.in(1, mx), k.rng.in(1, mx), la);
    k.d << "class=" << w << " a=" << dims(a) << " dB=" << dB;
    LM l;
    switch (w) {
    case 0: l.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB)); break;
    case 1: l.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a, dB)); break;
    case 2: l.reset(new mat_lzz_pX_lmultiplier_geometric(a, dB)); break;
    case 3: l.reset(new mat_lzz_pX_lmultiplier_dense(a, dB)); break;
    default: l.reset(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
    }
    k.tag(S("class" << w));
    use(k, l, a, dB, k.rng.in(1, 4), mx);
}
// inner dimension beyond one accumulation slice of the long-long accumulators
OP("C03", lmul_inner_dim, 2, 60, 300)
{
    setmod(k, K_FFT | K_UFFT);
    long n = k.rng.chance(50) ? k.rng.in(250, 260) : k.rng.in(505, 515);
    PM a = rmat(k.rng, k.rng.in(1, 3), n, k.rng.in(1, 12)); if (k.rng.chance(40)) for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < n; j++) a[i][j] = rpolyS(k.rng, 1);
    long dB = k.rng.in(0, 9);
    k.d << "a=" << dims(a) << " dB=" << dB;
    LM l(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB));
    use(k, l, a, dB, 2, 4);
}

// 3-primes multiplier on products whose leading coefficients vanish modulo one of the primes
OP("C03", lmul_crt_edge, 20, 300, 1500)
{
    setmod(k, K_BIG | K_MID | K_LARGEONLY); Rng &r = k.rng; if (r.chance(40)) { zz_p::init(NextPrime(1000000000000000000L + r.below(150000000000000000L))); k.d << "p=" << zz_p::modulus() << " "; }
    long m = r.in(1, 4), n = r.in(2, 5), p = r.in(1, 4), la = r.in(1, 30), dB = r.in(0, 30); PM a = rmat(r, m, n, la); CV u, v; if (!crt_edge(r, u, v, n)) throw Skip{}; long i = r.below(m); for (long t = 0; t < n; t++) SetCoeff(a[i][t], la - 1, u[t]);
    k.d << "a=" << dims(a) << " dB=" << dB; LM l(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
    for (long q = 0; q < 3; q++) { PM b = rmat(r, n, p, dB + 1), c; long j = r.below(p); if (q != 1) for (long t = 0; t < n; t++) SetCoeff(b[t][j], dB, v[t]); k.in("b", b).out("c", c); k.run([&]() { l->multiply(c, b); }); k.check(normalized(c) && same(c, rmul(a, b)), S("use " << q << ": product differs from the definition")); }
}
