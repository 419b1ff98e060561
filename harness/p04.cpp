// C04: arithmetic and data movement of polynomial vectors and matrices
#include "common.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_pX_extra.h"
PML_CLIENT

static zz_p cf(const zz_pX &f, long i) { return (i < 0 || i >= f.rep.length()) ? to_zz_p(0) : f.rep[i]; }
template <class F> static zz_pX mk(long len, F g) { zz_pX f; if (len <= 0) return f; f.rep.SetLength(len); for (long i = 0; i < len; i++) f.rep[i] = g(i); f.normalize(); return f; }
static zz_pX sh(const zz_pX &f, long n) { return mk(f.rep.length() + std::max(n, 0L), [&](long i) { return cf(f, i - n); }); }   // f * x^n, n may be negative
static zz_pX tr(const zz_pX &f, long n) { return mk(std::min((long)f.rep.length(), n), [&](long i) { return cf(f, i); }); }
static zz_pX rv(const zz_pX &f, long hi) { return mk(hi + 1, [&](long i) { return cf(f, hi - i); }); }
static zz_pX ad(const zz_pX &f, const zz_pX &g) { return mk(std::max(f.rep.length(), g.rep.length()), [&](long i) { return cf(f, i) + cf(g, i); }); }
static zz_pX sb(const zz_pX &f, const zz_pX &g) { return mk(std::max(f.rep.length(), g.rep.length()), [&](long i) { return cf(f, i) - cf(g, i); }); }
static zz_pX ng(const zz_pX &f) { return sb(zz_pX(), f); }
static zz_pX cst(const zz_p &c) { zz_pX f; if (!IsZero(c)) { f.rep.SetLength(1); f.rep[0] = c; } return f; }
static zz_p ev(const zz_pX &f, const zz_p &x) { zz_p r = to_zz_p(0), pw = to_zz_p(1); for (long i = 0; i < f.rep.length(); i++) { r += f.rep[i] * pw; pw *= x; } return r; }
template <class F> static PM mp(const PM &a, F g) { PM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = g(a[i][j], i, j); return c; }
template <class F> static PV mpv(const PV &a, F g) { PV c; c.SetLength(a.length()); for (long i = 0; i < a.length(); i++) c[i] = g(a[i], i); return c; }

static PV rvs(Rng &r, long n, long len) { PV v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rpolyS(r, len); return v; }
static long dim(Ctx &k) { return k.rng.chance(12) ? 0 : k.rng.chance(25) ? 1 : k.rng.in(2, k.sz(5, 9, 40)); }
static long len(Ctx &k) { return k.rng.chance(15) ? k.rng.in(0, 2) : k.rng.in(0, k.sz(20, 80, 200)); }
static void ok(Ctx &k, const PM &got, const PM &want, const PM &in) { k.check(normalized(got), "result not normalized or ragged"); k.check(same(got, want), S("result differs from the definition: in " << show(in) << " got " << show(got) << " expected " << show(want))); }
static void okv(Ctx &k, const PV &got, const PV &want) { k.check(normalized(got), "result not normalized"); k.check(same(got, want), S("vector result differs from the definition: got " << got << " expected " << want)); }

// unary matrix map, with and without aliasing
template <class F> static void un(Ctx &k, const PM &a0, const PM &want, bool alias, F f)
{
    PM a = a0, c;
    if (alias) { k.inout("a", a); k.run([&]() { f(a, a); }); c = a; }
    else { k.in("a", a).out("c", c); k.run([&]() { f(c, a); }); }
    ok(k, c, want, a0);
}
template <class F> static void unv(Ctx &k, const PV &a0, const PV &want, bool alias, F f)
{
    PV a = a0, c;
    if (alias) { k.inout("a", a); k.run([&]() { f(a, a); }); c = a; }
    else { k.in("a", a).out("c", c); k.run([&]() { f(c, a); }); }
    okv(k, c, want);
}
static long amount(Ctx &k, long l) { int w = k.rng.below(5); return w == 0 ? 0 : w == 1 ? l : w == 2 ? l + k.rng.in(1, 9) : k.rng.in(0, l); }

OP("C04", util_matrix_unary, 800, 30000, 150000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long m = dim(k), n = dim(k), l = len(k);
    PM a = rmatS(r, m, n, l);
    bool al = r.chance(40);
    int w = r.below(16);
    long t = amount(k, l); if (w >= 3 && w <= 5 && r.chance(30)) t = -t;
    k.d << "w=" << w << " " << dims(a) << " t=" << t << " alias=" << al;
    k.tag(S("w" << w));
    switch (w) {
    case 0: { PM want; want.SetDims(n, m); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) want[j][i] = a[i][j]; un(k, a, want, al, [&](PM &c, const PM &x) { if (al || r.chance(70)) transpose(c, x); else c = transpose(x); }); break; }
    case 1: un(k, a, mp(a, [&](const zz_pX &f, long, long) { return tr(f, t); }), al, [&](PM &c, const PM &x) { trunc(c, x, t); }); break;
    case 2: { PM c; k.in("a", a).out("c", c); k.run([&]() { c = trunc(a, t); }); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return tr(f, t); }), a); break; }
    case 3: un(k, a, mp(a, [&](const zz_pX &f, long, long) { return sh(f, t); }), al, [&](PM &c, const PM &x) { LeftShift(c, x, t); }); break;
    case 4: un(k, a, mp(a, [&](const zz_pX &f, long, long) { return sh(f, -t); }), al, [&](PM &c, const PM &x) { RightShift(c, x, t); }); break;
    case 5: { PM c = a, e = a, b, d; k.inout("c", c).inout("e", e); k.run([&]() { b = a << t; d = a >> t; c <<= t; e >>= t; }); PM L = mp(a, [&](const zz_pX &f, long, long) { return sh(f, t); }), R = mp(a, [&](const zz_pX &f, long, long) { return sh(f, -t); }); ok(k, b, L, a); ok(k, c, L, a); ok(k, d, R, a); ok(k, e, R, a); break; }
    case 6: { if (m == 0) throw Skip{}; long i0 = r.below(m); un(k, a, mp(a, [&](const zz_pX &f, long i, long) { return i == i0 ? sh(f, t) : f; }), al, [&](PM &c, const PM &x) { LeftShiftRow(c, x, i0, t); }); break; }
    case 7: { if (m == 0) throw Skip{}; long i0 = r.below(m); un(k, a, mp(a, [&](const zz_pX &f, long i, long) { return i == i0 ? sh(f, -t) : f; }), al, [&](PM &c, const PM &x) { RightShiftRow(c, x, i0, t); }); break; }
    case 8: { if (n == 0) throw Skip{}; long j0 = r.below(n); un(k, a, mp(a, [&](const zz_pX &f, long, long j) { return j == j0 ? sh(f, t) : f; }), al, [&](PM &c, const PM &x) { LeftShiftCol(c, x, j0, t); }); break; }
    case 9: { if (n == 0) throw Skip{}; long j0 = r.below(n); un(k, a, mp(a, [&](const zz_pX &f, long, long j) { return j == j0 ? sh(f, -t) : f; }), al, [&](PM &c, const PM &x) { RightShiftCol(c, x, j0, t); }); break; }
    case 10: { if (m == 0) throw Skip{}; long i0 = r.below(m); un(k, a, mp(a, [&](const zz_pX &f, long i, long) { return i == i0 ? tr(f, t) : f; }), al, [&](PM &c, const PM &x) { if (al || r.chance(60)) truncRow(c, x, i0, t); else c = truncRow(x, i0, t); }); break; }
    case 11: { if (n == 0) throw Skip{}; long j0 = r.below(n); un(k, a, mp(a, [&](const zz_pX &f, long, long j) { return j == j0 ? tr(f, t) : f; }), al, [&](PM &c, const PM &x) { if (al || r.chance(60)) truncCol(c, x, j0, t); else c = truncCol(x, j0, t); }); break; }
    case 12: { long hi = r.chance(15) ? -1 : amount(k, l); un(k, a, mp(a, [&](const zz_pX &f, long, long) { return rv(f, hi); }), al, [&](PM &c, const PM &x) { reverse(c, x, hi); }); break; }
    case 13: { long hi = rdeg(a); un(k, a, mp(a, [&](const zz_pX &f, long, long) { return rv(f, hi); }), al, [&](PM &c, const PM &x) { if (al || r.chance(50)) reverse(c, x); else c = reverse(x); }); break; }
    case 14: { VL h(m); for (auto &x : h) x = r.chance(15) ? -1 : amount(k, l); un(k, a, mp(a, [&](const zz_pX &f, long i, long) { return rv(f, h[i]); }), al, [&](PM &c, const PM &x) { row_reverse(c, x, h); }); break; }
    default: { VL h(n); for (auto &x : h) x = r.chance(15) ? -1 : amount(k, l); un(k, a, mp(a, [&](const zz_pX &f, long, long j) { return rv(f, h[j]); }), al, [&](PM &c, const PM &x) { col_reverse(c, x, h); }); }
    }
}

OP("C04", util_vector_unary, 400, 12000, 50000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long n = dim(k), l = len(k); PV a = rvs(r, n, l);
    bool al = r.chance(40); int w = r.below(6); long t = amount(k, l); if ((w == 2 || w == 3) && r.chance(30)) t = -t;
    k.d << "w=" << w << " n=" << n << " l=" << l << " t=" << t << " alias=" << al;
    k.tag(S("w" << w));
    switch (w) {
    case 0: { PV want; want.SetLength(n); for (long i = 0; i < n; i++) want[i] = a[n - 1 - i]; unv(k, a, want, al, [&](PV &c, const PV &x) { mirror(c, x); }); break; }
    case 1: unv(k, a, mpv(a, [&](const zz_pX &f, long) { return tr(f, t); }), al, [&](PV &c, const PV &x) { trunc(c, x, t); }); break;
    case 2: unv(k, a, mpv(a, [&](const zz_pX &f, long) { return sh(f, t); }), al, [&](PV &c, const PV &x) { LeftShift(c, x, t); }); break;
    case 3: unv(k, a, mpv(a, [&](const zz_pX &f, long) { return sh(f, -t); }), al, [&](PV &c, const PV &x) { RightShift(c, x, t); }); break;
    case 4: unv(k, a, mpv(a, [&](const zz_pX &f, long) { return ng(f); }), al, [&](PV &c, const PV &x) { if (r.chance(50)) PML::negate(c, x); else c = -x; }); break;
    default: { PV L = a, R = a, b, d; k.inout("L", L).inout("R", R); k.run([&]() { b = a << t; d = a >> t; L <<= t; R >>= t; }); PV wl = mpv(a, [&](const zz_pX &f, long) { return sh(f, t); }), wr = mpv(a, [&](const zz_pX &f, long) { return sh(f, -t); }); okv(k, b, wl); okv(k, L, wl); okv(k, d, wr); okv(k, R, wr); }
    }
    k.check(deg(a) == rdeg(a), "deg(vector)"); k.check(IsZero(a) == (rdeg(a) < 0), "IsZero(vector)");
}

OP("C04", arith_matrix, 800, 25000, 120000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long m = dim(k), n = dim(k), l = len(k);
    PM a = rmatS(r, m, n, l), b = r.chance(15) ? mp(a, [&](const zz_pX &f, long, long) { return ng(f); }) : r.chance(15) ? a : rmatS(r, m, n, len(k));
    CM ca = rcm(r, m, n); if (r.chance(30)) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) ca[i][j] = r.chance(50) ? cf(a[i][j], 0) : -cf(a[i][j], 0);
    zz_p s = r.chance(15) ? to_zz_p(0) : rc(r); zz_pX f = rpolyS(r, len(k));
    int w = r.below(12), al = r.below(4);
    k.d << "w=" << w << " " << dims(a) << " " << dims(b) << " al=" << al;
    k.tag(S("w" << w));
    PM c, a0 = a, b0 = b;
    auto bin = [&](const PM &want, std::function<void(PM &, const PM &, const PM &)> g) {
        if (al == 0) { k.inout("a", a).in("b", b); k.run([&]() { g(a, a, b); }); ok(k, a, want, a0); }
        else if (al == 1) { k.in("a", a).inout("b", b); k.run([&]() { g(b, a, b); }); ok(k, b, want, a0); }
        else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { g(c, a, b); }); ok(k, c, want, a0); } };
    auto una = [&](const PM &want, std::function<void(PM &, const PM &)> g) { un(k, a0, want, al < 2, g); };
    switch (w) {
    case 0: bin(mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, b0[i][j]); }), [&](PM &z, const PM &x, const PM &y) { add(z, x, y); }); break;
    case 1: bin(mp(a, [&](const zz_pX &x, long i, long j) { return sb(x, b0[i][j]); }), [&](PM &z, const PM &x, const PM &y) { sub(z, x, y); }); break;
    case 2: una(mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, cst(ca[i][j])); }), [&](PM &z, const PM &x) { if (r.chance(50)) add(z, x, ca); else add(z, ca, x); }); break;
    case 3: una(mp(a, [&](const zz_pX &x, long i, long j) { return sb(x, cst(ca[i][j])); }), [&](PM &z, const PM &x) { sub(z, x, ca); }); break;
    case 4: una(mp(a, [&](const zz_pX &x, long i, long j) { return sb(cst(ca[i][j]), x); }), [&](PM &z, const PM &x) { sub(z, ca, x); }); break;
    case 5: una(mp(a, [&](const zz_pX &x, long, long) { return ng(x); }), [&](PM &z, const PM &x) { if (r.chance(50)) PML::negate(z, x); else z = -x; }); break;
    case 6: una(mp(a, [&](const zz_pX &x, long, long) { return mk(x.rep.length(), [&](long i) { return s * cf(x, i); }); }), [&](PM &z, const PM &x) { int q = r.below(4); if (q == 0) mul(z, x, s); else if (q == 1) mul(z, s, x); else if (q == 2) z = x * s; else z = s * x; }); break;
    case 7: una(mp(a, [&](const zz_pX &x, long, long) { return x * f; }), [&](PM &z, const PM &x) { int q = r.below(4); if (q == 0) mul(z, x, f); else if (q == 1) mul(z, f, x); else if (q == 2) z = x * f; else z = f * x; }); break;
    case 8: { PM s1, s2, s3 = a, s4 = a, s5, s6, s7; k.run([&]() { s1 = a + b; s2 = a - b; s3 = a; s3 += b; s4 = a; s4 -= b; s5 = a + ca; s6 = ca - a; s7 = ca + a; });
        PM A = mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, b[i][j]); }), B = mp(a, [&](const zz_pX &x, long i, long j) { return sb(x, b[i][j]); });
        ok(k, s1, A, a); ok(k, s2, B, a); ok(k, s3, A, a); ok(k, s4, B, a); PM C = mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, cst(ca[i][j])); });
        ok(k, s5, C, a); ok(k, s7, C, a); ok(k, s6, mp(a, [&](const zz_pX &x, long i, long j) { return sb(cst(ca[i][j]), x); }), a); break; }
    case 9: { PM x1 = a, x2 = a, x3; k.run([&]() { x1 = a; x1 += ca; x2 = a; x2 -= ca; x3 = a - ca; });
        ok(k, x1, mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, cst(ca[i][j])); }), a); PM D = mp(a, [&](const zz_pX &x, long i, long j) { return sb(x, cst(ca[i][j])); }); ok(k, x2, D, a); ok(k, x3, D, a); break; }
    default: { long t = r.in(1, 1 + amount(k, l)); PM want = mp(a, [&](const zz_pX &x, long i, long j) { return ad(x, sh(b0[i][j], t)); });
        if (al < 2) { k.inout("a", a).in("b", b); k.run([&]() { add_LeftShift(a, a, b, t); }); ok(k, a, want, a0); }
        else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { add_LeftShift(c, a, b, t); }); ok(k, c, want, a0); } }
    }
}

OP("C04", arith_vector, 400, 12000, 50000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long n = dim(k), l = len(k); PV a = rvs(r, n, l), b = r.chance(20) ? mpv(a, [&](const zz_pX &f, long) { return ng(f); }) : rvs(r, n, len(k)), c;
    CV v = rcv(r, n); zz_p s = rc(r); zz_pX f = rpolyS(r, len(k));
    int w = r.below(9), al = r.below(4); k.d << "w=" << w << " n=" << n << " l=" << l << " al=" << al; k.tag(S("w" << w));
    PV a0 = a, b0 = b;
    auto bin = [&](const PV &want, std::function<void(PV &, const PV &, const PV &)> g) {
        if (al == 0) { k.inout("a", a).in("b", b); k.run([&]() { g(a, a, b); }); okv(k, a, want); }
        else if (al == 1) { k.in("a", a).inout("b", b); k.run([&]() { g(b, a, b); }); okv(k, b, want); }
        else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { g(c, a, b); }); okv(k, c, want); } };
    switch (w) {
    case 0: bin(mpv(a, [&](const zz_pX &x, long i) { return ad(x, b0[i]); }), [&](PV &z, const PV &x, const PV &y) { add(z, x, y); }); break;
    case 1: bin(mpv(a, [&](const zz_pX &x, long i) { return sb(x, b0[i]); }), [&](PV &z, const PV &x, const PV &y) { sub(z, x, y); }); break;
    case 2: unv(k, a0, mpv(a, [&](const zz_pX &x, long i) { return ad(x, cst(v[i])); }), al < 2, [&](PV &z, const PV &x) { if (r.chance(50)) add(z, x, v); else add(z, v, x); }); break;
    case 3: unv(k, a0, mpv(a, [&](const zz_pX &x, long i) { return sb(x, cst(v[i])); }), al < 2, [&](PV &z, const PV &x) { sub(z, x, v); }); break;
    case 4: unv(k, a0, mpv(a, [&](const zz_pX &x, long i) { return sb(cst(v[i]), x); }), al < 2, [&](PV &z, const PV &x) { sub(z, v, x); }); break;
    case 5: unv(k, a0, mpv(a, [&](const zz_pX &x, long) { return x * cst(s); }), al < 2, [&](PV &z, const PV &x) { int q = r.below(4); if (q == 0) mul(z, x, s); else if (q == 1) mul(z, s, x); else if (q == 2) z = x * s; else z = s * x; }); break;
    case 6: unv(k, a0, mpv(a, [&](const zz_pX &x, long) { return x * f; }), al < 2, [&](PV &z, const PV &x) { int q = r.below(4); if (q == 0) mul(z, x, f); else if (q == 1) mul(z, f, x); else if (q == 2) z = x * f; else z = f * x; }); break;
    case 7: { PV s1, s2, s3, s4; k.run([&]() { s1 = a + b; s2 = a - b; s3 = a; s3 += b; s4 = a; s4 -= b; s3 += v; s4 -= v; }); okv(k, s1, mpv(a, [&](const zz_pX &x, long i) { return ad(x, b[i]); })); okv(k, s2, mpv(a, [&](const zz_pX &x, long i) { return sb(x, b[i]); }));
        okv(k, s3, mpv(a, [&](const zz_pX &x, long i) { return ad(ad(x, b[i]), cst(v[i])); })); okv(k, s4, mpv(a, [&](const zz_pX &x, long i) { return sb(sb(x, b[i]), cst(v[i])); })); break; }
    default: { long t = r.in(1, 1 + amount(k, l)); PV want = mpv(a, [&](const zz_pX &x, long i) { return ad(x, sh(b0[i], t)); });
        if (al < 2) { k.inout("a", a).in("b", b); k.run([&]() { add_LeftShift(a, a, b, t); }); okv(k, a, want); } else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { add_LeftShift(c, a, b, t); }); okv(k, c, want); } }
    }
}

OP("C04", arith_const_matrix, 200, 6000, 25000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long m = dim(k), n = dim(k), p = r.chance(40) ? n : dim(k); bool left = r.chance(50), al = r.chance(35);
    PM a = rmatS(r, m, n, len(k)); CM b = left ? rcm(r, p, m) : rcm(r, n, p);
    k.d << "left=" << left << " " << dims(a) << " p=" << p << " al=" << al;
    PM want; want.SetDims(left ? p : m, left ? n : p);
    for (long i = 0; i < want.NumRows(); i++) for (long j = 0; j < want.NumCols(); j++) { zz_pX s; for (long t = 0; t < (left ? m : n); t++) s += left ? cst(b[i][t]) * a[t][j] : a[i][t] * cst(b[t][j]); want[i][j] = s; }
    int q = r.below(3);
    un(k, a, want, al, [&](PM &z, const PM &x) { if (left) { if (q) mul(z, b, x); else z = b * x; } else { if (q == 1) mul(z, x, b); else if (q == 2 && &z == &x) z *= b; else z = x * b; } });
}

OP("C04", util_queries, 400, 10000, 40000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long m = dim(k), n = dim(k), l = len(k); PM a = rmatS(r, m, n, l), c; long i = r.in(0, l + 3); int w = r.below(10);
    k.d << "w=" << w << " " << dims(a) << " i=" << i; k.tag(S("w" << w));
    k.check(deg(a) == rdeg(a), "deg(matrix)"); k.check(IsZero(a) == (rdeg(a) < 0), "IsZero(matrix)"); if (rdeg(a) >= 0) k.check(IsConstant(a) == (rdeg(a) == 0), "IsConstant");
    switch (w) {
    case 0: { CM e; k.in("a", a).out("e", e); k.run([&]() { if (i & 1) GetCoeff(e, a, i); else e = coeff(a, i); }); CM want; want.SetDims(m, n); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) want[u][v] = cf(a[u][v], i); k.check(same(e, want), "GetCoeff differs"); break; }
    case 1: { CM e = rcm(r, m, n); if (r.chance(40)) for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) if (r.chance(60)) e[u][v] = 0; PM b = a; k.inout("b", b).in("e", e); k.run([&]() { SetCoeff(b, i, e); }); ok(k, b, mp(a, [&](const zz_pX &f, long u, long v) { return mk(std::max((long)f.rep.length(), i + 1), [&](long t) { return t == i ? e[u][v] : cf(f, t); }); }), a); break; }
    case 2: { zz_p x = rc(r); CM e; k.in("a", a).out("e", e); k.run([&]() { if (i & 1) eval(e, a, x); else e = eval(a, x); }); CM want; want.SetDims(m, n); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) want[u][v] = ev(a[u][v], x); k.check(same(e, want), "eval differs"); break; }
    case 3: { Vec<CM> q; k.in("a", a).out("q", q); k.run([&]() { conv(q, a); }); k.check(q.length() == rdeg(a) + 1, "conv to coefficients: wrong length"); for (long t = 0; t < q.length(); t++) { k.check(q[t].NumRows() == m && q[t].NumCols() == n, "conv: coefficient dimensions"); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) k.check(q[t][u][v] == cf(a[u][v], t), "conv to coefficients: wrong entry"); } break; }
    case 4: { Vec<CM> q; k.in("a", a).out("q", q); k.run([&]() { conv(q, a, i); }); k.check(q.length() == i, "conv with order: wrong length"); for (long t = 0; t < i; t++) { k.check(q[t].NumRows() == m && q[t].NumCols() == n, "conv order: dimensions"); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) k.check(q[t][u][v] == cf(a[u][v], t), "conv with order: wrong entry"); } break; }
    case 5: case 6: { Vec<CM> q; long L = r.in(1, l + 3); q.SetLength(L); for (long t = 0; t < L; t++) { q[t].SetDims(m, n); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) q[t][u][v] = cf(a[u][v], t); } long lim = w == 5 ? L : std::min(L, i);
        if (w == 6 && i == 0) throw Skip{};
        k.out("c", c); k.run([&]() { if (w == 5) conv(c, q); else conv(c, q, i); }); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return tr(f, lim); }), a);
        zz_p x = rc(r); CM e; k.out("e", e); k.run([&]() { eval(e, q, x); }); CM want; want.SetDims(m, n); for (long u = 0; u < m; u++) for (long v = 0; v < n; v++) want[u][v] = ev(tr(a[u][v], L), x); k.check(same(e, want), "eval of coefficient list differs"); break; }
    case 7: { CM e = rcm(r, m, n); if (r.chance(40)) clear(e); k.in("e", e).out("c", c); k.run([&]() { conv(c, e); }); ok(k, c, mp(a, [&](const zz_pX &, long u, long v) { return cst(e[u][v]); }), a); break; }
    case 8: { k.out("c", c); k.run([&]() { if (i & 1) ident(c, n); else c = ident_mat_zz_pX(n); }); ok(k, c, rident(n), a); k.check(IsIdent(c) && IsIdent(c, n) && !IsIdent(c, n + 1), "IsIdent rejects the identity"); if (n > 0) { PM d = c; long u = r.below(n), v = r.below(n); d[u][v] += sh(cst(rnz(r)), r.in(0, 3)); k.check(!IsIdent(d) && !IsIdent(d, n), "IsIdent accepts a non-identity"); PM e2; e2.SetDims(n, n + 1); for (long z = 0; z < n; z++) set(e2[z][z]); k.check(!IsIdent(e2), "IsIdent accepts a rectangular matrix"); } break; }
    default: { PM b = a; long ro = r.in(0, m), co = r.in(0, n), nr = r.in(0, m + 2), nc = r.in(0, n + 2); k.inout("b", b); k.run([&]() { if (i & 1) clear(b); else clear(b, ro, co, nr, nc); });
        ok(k, b, mp(a, [&](const zz_pX &f, long u, long v) { return ((i & 1) || (u >= ro && u < ro + nr && v >= co && v < co + nc)) ? zz_pX() : f; }), a); }
    }
}

// coefficient lists without coefficients: the matrix keeps its dimensions and becomes zero
OP("C04", util_empty_list, 20, 200, 800)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = dim(k), n = dim(k); PM a = rmatS(r, m, n, r.in(0, 6)); Vec<CM> q; k.d << m << "x" << n; long w = r.below(3); if (w == 2) { q.SetLength(r.in(1, 3)); for (long t = 0; t < q.length(); t++) q[t] = rcm(r, r.in(1, 4), r.in(1, 4)); }
    k.inout("a", a); k.run([&]() { if (w == 0) conv(a, q); else conv(a, q, w == 2 ? 0 : r.in(0, 5)); }); k.check(a.NumRows() == m && a.NumCols() == n && rdeg(a) < 0, "conversion of an empty coefficient list: not the zero matrix of the same dimensions");
    if (w != 2) { CM e = rcm(r, m, n); k.clearReg(); eval(e, q, rc(r)); k.check(e.NumRows() == 0 && e.NumCols() == 0, "evaluation of an empty coefficient list"); }
}
OP("C04", util_random, 100, 2000, 8000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long m = dim(k), n = dim(k), d = r.in(0, 12); int w = r.below(5); k.d << "w=" << w << " " << m << "x" << n << " d=" << d;
    PM a; 
    switch (w) {
    case 0: { k.out("a", a); k.run([&]() { random(a, m, n, d); }); k.check(a.NumRows() == m && a.NumCols() == n && normalized(a) && rdeg(a) < d, "random: shape"); break; }
    case 1: { VL rd(m); for (auto &x : rd) x = r.in(0, 9); k.out("a", a); k.run([&]() { random_mat_zz_pX_rdeg(a, m, n, rd); }); k.check(a.NumRows() == m && a.NumCols() == n && normalized(a), "random rdeg: shape"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) k.check(deg(a[i][j]) < rd[i] || IsZero(a[i][j]), "random rdeg: degree"); break; }
    case 2: { VL cd(n); for (auto &x : cd) x = r.in(0, 9); k.out("a", a); k.run([&]() { random_mat_zz_pX_cdeg(a, m, n, cd); }); k.check(a.NumRows() == m && a.NumCols() == n && normalized(a), "random cdeg: shape"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) k.check(deg(a[i][j]) < cd[j] || IsZero(a[i][j]), "random cdeg: degree"); break; }
    case 3: { Mat<long> dm; dm.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dm[i][j] = r.in(0, 9); k.out("a", a); k.run([&]() { random(a, dm); }); k.check(a.NumRows() == m && a.NumCols() == n && normalized(a), "random dmat: shape"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) k.check(deg(a[i][j]) < dm[i][j] || IsZero(a[i][j]), "random dmat: degree"); break; }
    default: { Vec<CM> q; k.run([&]() { random(q, m, n, d); }); k.check(q.length() == d, "random coefficient list: length"); for (long t = 0; t < d; t++) k.check(q[t].NumRows() == m && q[t].NumCols() == n && normalized(q[t]), "random coefficient list: shape"); PV v; k.run([&]() { random(v, n, d); }); k.check(v.length() == n && normalized(v) && rdeg(v) < std::max(d, 0L) + (d == 0), "random vector"); }
    }
}

OP("C04", util_join_collapse, 200, 5000, 20000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng; int w = r.below(3), al = r.below(4);
    long m = dim(k);
    if (w == 0) {
        PM a = rmatS(r, m, dim(k), len(k)), b = rmatS(r, m, dim(k), len(k)), c; PM want; want.SetDims(m, a.NumCols() + b.NumCols());
        for (long i = 0; i < m; i++) for (long j = 0; j < want.NumCols(); j++) want[i][j] = j < a.NumCols() ? a[i][j] : b[i][j - a.NumCols()];
        k.d << "join " << dims(a) << " " << dims(b) << " al=" << al; PM a0 = a;
        if (al == 0) { k.inout("a", a).in("b", b); k.run([&]() { horizontal_join(a, a, b); }); ok(k, a, want, a0); }
        else if (al == 1) { k.in("a", a).inout("b", b); k.run([&]() { horizontal_join(b, a, b); }); ok(k, b, want, a0); }
        else { k.in("a", a).in("b", b).out("c", c); k.run([&]() { horizontal_join(c, a, b); }); ok(k, c, want, a0); }
    } else {
        long s = r.in(1, 4), q = r.in(0, 4), t = s * q, d = r.in(1, 12); PM a = rmatS(r, m, t, d), want; bool cons = w == 1;
        want.SetDims(m, cons ? q : s);
        for (long j = 0; j < m; j++) for (long i = 0; i < want.NumCols(); i++) for (long e = 0; e < (cons ? s : q); e++) want[j][i] = ad(want[j][i], sh(cons ? a[j][i * s + e] : a[j][i + e * s], e * d));
        k.d << "collapse " << cons << " " << dims(a) << " s=" << s << " d=" << d << " al=" << al;
        un(k, a, want, al < 2, [&](PM &c, const PM &x) { if (cons) collapse_consecutive_columns(c, x, d, s); else collapse_nonconsecutive_columns(c, x, d, s); });
    }
}

// partial linearization: pieces of the promised degree that recombine to the input; products through it are exact
OP("C04", util_parlin, 200, 5000, 20000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng; int w = r.below(3);
    long m = r.in(1, 5), n = r.in(1, 5); PM b = rmatS(r, m, n, r.in(1, 25));
    VL cd(n, 0); for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) cd[j] = std::max(cd[j], deg(b[i][j]));
    if (r.chance(40)) for (auto &x : cd) x += r.in(0, 6);   // documented as an upper bound
    long pl = r.in(0, 9);
    k.d << "w=" << w << " b=" << dims(b) << " pl=" << pl << " cd=" << show(cd);
    if (w == 0) {
        VL pd(n); for (auto &x : pd) x = r.in(0, 9); PM q; VL cols;
        k.in("b", b).out("q", q).out("cols", cols); k.run([&]() { cols = column_partial_linearization(q, b, pd, cd); });
        k.check((long)cols.size() == n + 1 && cols[0] == 0 && q.NumRows() == m && q.NumCols() == cols[n], "partial linearization: shape"); k.check(normalized(q), "partial linearization: not normalized");
        for (long j = 0; j < n; j++) { k.check(cols[j + 1] > cols[j], "partial linearization: empty column block"); for (long i = 0; i < m; i++) { zz_pX s; for (long jj = cols[j]; jj < cols[j + 1]; jj++) { if (jj + 1 < cols[j + 1]) k.check(deg(q[i][jj]) <= pd[j], "partial linearization: piece too long"); s = ad(s, sh(q[i][jj], (jj - cols[j]) * (pd[j] + 1))); } k.check(s == b[i][j], "partial linearization does not recombine to the input"); } }
    } else if (w == 1) {
        PM a = rmatS(r, r.in(1, 5), m, r.in(1, 20)), c; bool given = r.chance(70);
        k.in("a", a).in("b", b).out("c", c); k.run([&]() { if (given) right_parlin_multiply(c, a, b, pl, cd); else right_parlin_multiply(c, a, b, pl); }); ok(k, c, rmul(a, b), a);
    } else {
        long dA = r.in(0, 12), dB = r.in(0, 15); PM a = rmatS(r, r.in(1, 5), m, dA + 1), c;
        k.d << " dA=" << dA << " dB=" << dB << " a=" << dims(a);
        k.in("a", a).in("b", b).out("c", c); k.run([&]() { right_parlin_middle_product(c, a, b, pl, cd, dA, dB); }); ok(k, c, rslice(rmul(a, b), dA, dB + 1), a);
    }
}
// the forms that return their result (or take scalar parameters) give exactly what the underlying routines give
OP("C04", value_forms, 200, 6000, 30000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng; int w = r.below(16); long m = r.in(0, 5), n = r.in(0, 5), l = r.chance(80) ? r.in(0, 9) : r.in(0, 40); PM a = rmatS(r, m, n, l), c, e; PV v = rvs(r, m, l), cv, evv; long t = r.in(0, l + 3); k.d << "w=" << w << " " << dims(a) << " t=" << t; k.tag(S("w" << w)); k.in("a", a).in("v", v);
    switch (w) {
    case 0: k.run([&]() { cv = mirror(v); }); evv = v; for (long i = 0; i < m; i++) evv[i] = v[m - 1 - i]; okv(k, cv, evv); break;
    case 1: k.run([&]() { cv = trunc(v, t); }); okv(k, cv, mpv(v, [&](const zz_pX &f, long) { return tr(f, t); })); break;
    case 2: if (r.chance(30)) t = -t; k.run([&]() { cv = LeftShift(v, t); c = LeftShift(a, t); }); okv(k, cv, mpv(v, [&](const zz_pX &f, long) { return sh(f, t); })); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return sh(f, t); }), a); break;
    case 3: if (r.chance(30)) t = -t; k.run([&]() { cv = RightShift(v, t); c = RightShift(a, t); }); okv(k, cv, mpv(v, [&](const zz_pX &f, long) { return sh(f, -t); })); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return sh(f, -t); }), a); break;
    case 4: case 5: { if (m == 0 || n == 0) throw Skip{}; long q = w == 4 ? r.below(m) : r.below(n); bool lf = r.chance(50); k.run([&]() { if (w == 4) { if (lf) c = LeftShiftRow(a, q, t); else c = RightShiftRow(a, q, t); } else { if (lf) c = LeftShiftCol(a, q, t); else c = RightShiftCol(a, q, t); } }); ok(k, c, mp(a, [&](const zz_pX &f, long i, long j) { return (w == 4 ? i : j) == q ? sh(f, lf ? t : -t) : f; }), a); break; }
    case 6: k.run([&]() { c = reverse(a, t); }); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return rv(f, t); }), a); k.run([&]() { c = reverse(a); }); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return rv(f, deg(a)); }), a); break;
    case 7: { VL hi(m); for (auto &x : hi) x = r.in(0, l + 2); k.run([&]() { c = row_reverse(a, hi); }); ok(k, c, mp(a, [&](const zz_pX &f, long i, long) { return rv(f, hi[i]); }), a); break; }
    case 8: { VL hi(n); for (auto &x : hi) x = r.in(0, l + 2); k.run([&]() { c = col_reverse(a, hi); }); ok(k, c, mp(a, [&](const zz_pX &f, long, long j) { return rv(f, hi[j]); }), a); break; }
    case 9: { if (m == 0 || n == 0) throw Skip{}; zz_p x = rc(r); Vec<CM> mats; CM u, z; CM want; want.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) want[i][j] = ::ev(a[i][j], x);
        k.run([&]() { mats = conv(a); u = eval(a, x); }); k.check(mats.length() == deg(a) + 1, "conv: number of coefficients"); for (long i = 0; i < mats.length(); i++) k.check(same(mats[i], rcoeff(a, i)), "conv: coefficient"); k.check(same(u, want), "eval(matrix)"); if (mats.length()) { k.run([&]() { z = eval(mats, x); c = conv(mats); }); k.check(same(z, want), "eval(coefficients)"); ok(k, c, a, a); if (t > 0) k.run([&]() { c = conv(mats, t); }); else c.SetDims(m, n), clear(c); ok(k, c, mp(a, [&](const zz_pX &f, long, long) { return tr(f, t); }), a); k.run([&]() { mats = conv(a, t); }); k.check(mats.length() <= std::max(t, 0L), "conv(order): number of coefficients"); for (long i = 0; i < t; i++) k.check(i < mats.length() ? same(mats[i], rcoeff(a, i)) : i > deg(a), "conv(order): coefficient"); }
        break; }
    case 10: { k.run([&]() { cv = random_vec_zz_pX(m, t); c = random_mat_zz_pX(m, n, t); }); k.check(cv.length() == m && normalized(cv) && c.NumRows() == m && c.NumCols() == n && normalized(c), "random: shape"); for (long i = 0; i < m; i++) { k.check(deg(cv[i]) < t || t == 0, "random vector: degree"); for (long j = 0; j < n; j++) k.check(deg(c[i][j]) < std::max(t, 0L), "random matrix: degree"); }
        Mat<long> D; D.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = r.in(0, 6); k.run([&]() { c = random_mat_zz_pX(D); }); k.check(c.NumRows() == m && c.NumCols() == n && normalized(c), "random(degree matrix): shape"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) k.check(deg(c[i][j]) < std::max(1L, D[i][j]) - (D[i][j] == 0), "random(degree matrix): degree");
        Vec<CM> mats; k.run([&]() { mats = random_vec_mat_zz_p(m, n, t); }); k.check(mats.length() == t, "random(coefficients): length"); for (long i = 0; i < t; i++) k.check(mats[i].NumRows() == m && mats[i].NumCols() == n, "random(coefficients): dimensions"); break; }
    case 11: { CV b = rcv(r, m); PV cb; cb.SetLength(m); for (long i = 0; i < m; i++) cb[i] = cst(b[i]); int q = r.below(4); k.in("b", b); k.run([&]() { if (q == 0) cv = v + b; else if (q == 1) cv = b + v; else if (q == 2) cv = v - b; else cv = b - v; }); okv(k, cv, mpv(v, [&](const zz_pX &f, long i) { return q < 2 ? ad(f, cb[i]) : q == 2 ? sb(f, cb[i]) : sb(cb[i], f); })); break; }
    case 12: { PM b = rmatS(r, m, r.in(0, 5), l); k.in("b", b); k.run([&]() { c = horizontal_join(a, b); }); e.SetDims(m, n + b.NumCols()); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) e[i][j] = a[i][j]; for (long j = 0; j < b.NumCols(); j++) e[i][n + j] = b[i][j]; } ok(k, c, e, a); break; }
    case 13: { PM b = rmatS(r, n, r.in(1, 5), l); k.in("b", b); if (m == 0 || n == 0) throw Skip{}; k.run([&]() { c = mul_trunc(a, b, t); mul_trunc(e, a, b, t); }); PM want = mp(rmul(a, b), [&](const zz_pX &f, long, long) { return tr(f, t); }); ok(k, c, want, a); ok(k, e, want, a); break; }
    case 14: { if (m == 0 || n == 0) throw Skip{}; VL cd(n, 0), zc(n); for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) cd[j] = std::max(cd[j], deg(a[i][j])); col_degree(zc, a); for (long j = 0; j < n; j++) if (zc[j] < 0) throw Skip{}; int q = r.below(6); VL pd(n), tg = cd; for (auto &x : pd) x = r.in(0, 9); long p1 = r.in(0, 9), big = std::max(0L, deg(a)) + r.in(0, 3), sum = 0; VL got, want;
        if (q == 1) for (auto &x : tg) x += r.in(0, 4); for (long x : tg) sum += x; k.d << " q=" << q;
        k.run([&]() { if (q == 0) got = column_partial_linearization_cdeg(c, a, pd); else if (q == 1) got = column_partial_linearization(c, a, p1, tg); else if (q == 2) got = column_partial_linearization_cdeg(c, a, p1); else if (q == 3) got = column_partial_linearization(c, a, p1, big); else if (q == 4) got = column_partial_linearization(c, a, tg); else got = column_partial_linearization_cdeg(c, a); });
        VL P = q == 0 ? pd : VL(n, q <= 3 ? p1 : 1 + sum / n), T = q == 3 ? VL(n, big) : tg; want = column_partial_linearization(e, a, P, T); k.check(got == want, "partial linearization: column positions differ"); ok(k, c, e, a); break; }
    default: { if (m == 0 || n == 0 || deg(a) < 0) throw Skip{}; PM b = rmatS(r, n, r.in(1, 5), r.in(1, 25)); long db = std::max(0L, deg(b)) + r.in(0, 3), pl = r.in(0, 9), dA = r.in(0, 12), dB = r.in(0, 15); VL zc; col_degree(zc, b); for (long x : zc) if (x < 0) throw Skip{}; k.in("b", b); PM want = rmul(a, b);
        k.run([&]() { right_parlin_multiply(c, a, b, pl, db); right_parlin_multiply(e, a, b); }); ok(k, c, want, a); ok(k, e, want, a); PM a2 = rmatS(r, m, n, dA + 1), f; k.run([&]() { right_parlin_middle_product(f, a2, b, pl, db, dA, dB); }); ok(k, f, rslice(rmul(a2, b), dA, dB + 1), a2); }
    }
}
