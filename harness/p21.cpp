// C21: annihilators of linearly recurrent sequences over k[x]/x^d
#include "common.h"
#include "lzz_pX_seq.h"
PML_CLIENT
typedef Vec<PV> SV;   // SV[i] = i-th term, a vector over k[x]/x^d
// terms satisfying a monic recurrence of order ord: S[i+ord] = -sum c_j S[i+j]
static PV recseq(Rng &r, long L, long ord, long d)
{
    PV c, s; c.SetLength(ord); s.SetLength(L); int w = r.below(6);
    for (long j = 0; j < ord; j++) { c[j] = w == 0 ? zz_pX() : w == 1 ? rpolyS(r, d) : rpoly(r, d); if (w == 2) c[j] = trunc(c[j] << 1, d); if (w == 3 && r.chance(60)) clear(c[j]); if (w == 4) c[j] = zz_pX(coeff(c[j], 0)); }
    long val = r.chance(40) ? r.in(0, d) : 0, lead = r.chance(30) ? r.in(0, ord) : 0; bool sp = r.chance(30);
    for (long i = 0; i < L; i++) {
        if (i < ord) { if (i >= lead) s[i] = trunc((sp ? rpolyS(r, d) : rpoly(r, d)) << val, d); }
        else for (long j = 0; j < ord; j++) s[i] -= MulTrunc(c[j], s[i - ord + j], d);
    }
    return s;
}
// order at most e: sum of sequences whose orders sum to at most e
static PV seqgen(Rng &r, long L, long e, long d)
{
    PV s; s.SetLength(L); if (r.chance(4)) return s;
    long left = r.chance(70) ? e : r.in(0, e); int parts = r.chance(60) ? 1 : 1 + r.below(3);
    for (int q = 0; q < parts; q++) { long o = q == parts - 1 ? left : r.in(0, left); left -= o; PV t = recseq(r, L, o, d); long sh = r.chance(50) ? 0 : r.in(0, d); for (long i = 0; i < L; i++) s[i] += trunc(t[i] << sh, d); }
    return s;
}
// sequence of vectors with one common recurrence of order at most e
static SV modgen(Rng &r, long L, long e, long d, long tau)
{
    SV S; S.SetLength(L); for (long i = 0; i < L; i++) S[i].SetLength(tau);
    if (r.chance(3)) return S;
    int w = r.below(3);
    if (w < 2) {   // shifts and multiples of the terms of combinations of one scalar recurrence
        long o = r.chance(70) ? e : r.in(0, e); PV c; c.SetLength(o); int cw = r.below(4); for (long j = 0; j < o; j++) { c[j] = cw == 0 ? rpolyS(r, d) : rpoly(r, d); if (cw == 1) c[j] = trunc(c[j] << 1, d); }
        for (long t = 0; t < tau; t++) { long val = r.chance(40) ? r.in(0, d) : 0; bool z = r.chance(8); for (long i = 0; i < L && !z; i++) { zz_pX v; if (i < o) { if (!r.chance(10)) v = trunc(rpoly(r, d) << val, d); } else for (long j = 0; j < o; j++) v -= MulTrunc(c[j], S[i - o + j][t], d); S[i][t] = v; } }
    } else {
        long left = e; for (long t = 0; t < tau; t++) { long o = t == tau - 1 ? left : r.in(0, left); left -= o; PV s = seqgen(r, L, o, d); for (long i = 0; i < L; i++) S[i][t] = s[i]; }
    }
    return S;
}
static bool cancels(const SV &S, const PV &f, long d, std::string &why)
{
    long dy = f.length() - 1, tau = S.length() ? S[0].length() : 0; if (dy < 0) return true;
    for (long i = 0; i + dy < S.length(); i++) for (long t = 0; t < tau; t++) { zz_pX v; for (long j = 0; j <= dy; j++) v += MulTrunc(f[j], trunc(S[i + j][t], d), d); if (!IsZero(trunc(v, d))) { why = S("term " << i << " component " << t << " is not cancelled"); return false; } }
    return true;
}
static PV rowpoly(const PV &f) { PV v = f; long n = v.length(); while (n > 0 && v[n - 1] == 0) n--; v.SetLength(n); return v; }
// v[n] = least valuation of the leading coefficient of an annihilator of Y-degree n, for n = 0..e
static VL minvals(const SV &S, long e, long d, long tau)
{
    PM H; H.SetDims(e + 1, e * tau); for (long t = 0; t < tau; t++) for (long c = 0; c < e; c++) for (long r = 0; r <= e; r++) H[r][c + t * e] = trunc(S[c + r][t], d);
    VL order(e * tau, d), sh(e + 1); for (long i = 0; i <= e; i++) sh[i] = i * (d + 1) * (e + 2);
    return o_approx(H, order, sh, false).delta;
}
// strict 1: each generator has the least degree; 0: the first t+1 generators together reach it; -1: degrees not checked
// every generator cancels the sequence, generator t has leading coefficient x^t and the least possible degree
static void chk_gens(Ctx &k, const char *who, const SV &S, const Vec<zz_pXY> &g, const VL &v, long d, bool filled, int strict, long cap = 1000000000L)
{
    k.check(g.length() == d, S(who << ": " << g.length() << " generators instead of " << d)); std::string why;
    for (long t = 0; t < d; t++) {
        PV f = rowpoly(g[t].rep); k.check(normalized(g[t].rep) && f.length() == g[t].rep.length(), S(who << ": generator " << t << " not normalized"));
        if (f.length() == 0) { k.check(!filled && t > 0, S(who << ": generator " << t << " is zero")); continue; }
        if (strict == 1) for (long j = 0; j < f.length(); j++) k.check(deg(f[j]) < d, S(who << ": generator " << t << " not reduced modulo x^d")); else for (long j = 0; j < f.length(); j++) trunc(f[j], f[j], d);
        if (cap < 1000000000L) { long n = 0; while (v[n] > t) n++; if (n >= cap) { k.tag("beyond"); continue; } }
        { bool c = cancels(S, f, d, why); k.check(c, S(who << ": generator " << t << " (degree " << f.length() - 1 << "): " << why)); }
        zz_pX xt; SetCoeff(xt, t); k.check(f[f.length() - 1] == xt, S(who << ": generator " << t << " has leading coefficient " << f[f.length() - 1] << " instead of x^" << t));
        if (strict == 1) { long n = 0; while (v[n] > t) n++; k.check(f.length() - 1 == n, S(who << ": generator " << t << " has degree " << f.length() - 1 << ", least possible is " << n)); }
    }
    if (strict == 0) { long best = 1000000000L;   /* x^j times an earlier generator is always available */ for (long t = 0; t < d; t++) { PV f = rowpoly(g[t].rep); if (f.length()) best = std::min(best, f.length() - 1); long n = 0; while (v[n] > t) n++; if (n < cap) k.check(best == n, S(who << ": the first " << t + 1 << " generators give degree " << best << " for leading coefficient x^" << t << ", least possible is " << n)); } }
}
// rows generate all annihilators of degree at most e: membership plus determinant degree
static void chk_module(Ctx &k, const char *who, const SV &S, const Vec<zz_pXY> &g, const VL &v, long e, long d)
{
    k.check(g.length() == e + 1, S(who << ": " << g.length() << " generators instead of " << e + 1)); std::string why; PM P; P.SetDims(e + 1, e + 1);
    for (long i = 0; i <= e; i++) { PV f = rowpoly(g[i].rep); k.check(normalized(g[i].rep) && f.length() == g[i].rep.length(), S(who << ": generator " << i << " not normalized")); k.check(f.length() <= e + 1, S(who << ": generator " << i << " of degree " << f.length() - 1)); k.check(cancels(S, f, d, why), S(who << ": generator " << i << ": " << why)); for (long j = 0; j < f.length(); j++) P[i][j] = f[j]; }
    zz_pX D = rdet(P); long want = 0; for (long x : v) want += x; k.check(deg(D) == want, S(who << ": determinant degree " << deg(D) << ", annihilator module has " << want)); zz_pX m; SetCoeff(m, want); k.check(D == LeadCoeff(D) * m, S(who << ": determinant is not a power of x"));
}
static SV asmod(const PV &s) { SV S; S.SetLength(s.length()); for (long i = 0; i < s.length(); i++) { S[i].SetLength(1); S[i][0] = s[i]; } return S; }
static void sizes(Ctx &k, long &e, long &d, long &L, long mx, long md) { Rng &r = k.rng; e = r.in(1, mx); d = r.chance(20) ? 1 : r.in(1, md); L = 2 * e + (r.chance(40) ? r.in(0, 4) : 0); }
OP("C21", scalar_gens, 60, 900, 3000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long e, d, L; sizes(k, e, d, L, k.sz(4, 7, 12), k.sz(4, 6, 10)); PV s = seqgen(r, L, e, d); int w = r.below(3); k.d << "d=" << d << " order<=" << e << " length=" << L << " routine " << w; k.tag(S("r" << w << "d" << (d == 1))); SV M = asmod(s); VL v = minvals(M, e, d, 1); bool z = true; for (long i = 0; i < L; i++) if (s[i] != 0) z = false; if (z) k.tag("zero");
    Vec<zz_pXY> g; if (r.chance(40)) g.SetLength(r.in(0, 3)); if (g.length() && r.chance(50)) g[0].rep = rvec(r, 2, 3), g[0].normalize(); k.in("S", s);
    if (w == 0) { k.run([&]() { kurakin(d, s, g); }); chk_gens(k, "kurakin", M, g, v, d, true, true); }
    else if (w == 1) { k.run([&]() { modified_kurakin(d, s, g); }); chk_gens(k, "modified_kurakin", M, g, v, d, false, false); Vec<zz_pXY> h = g; fill_in(d, h); chk_gens(k, "fill_in", M, h, v, d, true, false); for (long i = 0; i < d; i++) if (!g[i].is_zero()) k.check(same(g[i].rep, h[i].rep), "fill_in: changed a generator"); }
    else { k.run([&]() { g.SetLength(0); berlekamp_massey_pmbasis(d, s, g); }); if (L / 2 == e) chk_module(k, "berlekamp_massey_pmbasis", M, g, v, e, d); else { long n = L / 2; chk_module(k, "berlekamp_massey_pmbasis", M, g, minvals(M, n, d, 1), n, d); } }
    if (w < 2) { bool c = true; c = check_cancel(s, g, d); k.check(c, "check_cancel: rejects generators that cancel"); }
}
// no recurrence of order at most half the length: generators still cancel every available term, with least degree
static long minval_at(const SV &S, long n, long d, long tau)
{
    long L = S.length(), c = L - n; if (c <= 0) return 0; PM H; H.SetDims(n + 1, c * tau); for (long t = 0; t < tau; t++) for (long j = 0; j < c; j++) for (long i = 0; i <= n; i++) H[i][j + t * c] = trunc(S[j + i][t], d);
    VL order(c * tau, d), sh(n + 1); for (long i = 0; i <= n; i++) sh[i] = i * (d + 1) * (n + 2); return o_approx(H, order, sh, false).delta[n];
}
OP("C21", prefix_gens, 40, 500, 2000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long L = r.in(1, k.sz(6, 17, 24)), d = r.chance(20) ? 1 : r.in(1, k.sz(4, 5, 8)), tau = r.chance(60) ? 1 : r.in(2, 3); int w = r.below(tau == 1 ? 4 : 2); if (w > 1) w = 1 + w % 2; bool scal = tau == 1 && w >= 1; k.d << "d=" << d << " length=" << L << " vectors of " << tau << " routine " << w; k.tag(S("r" << w << "t" << (tau == 1)));
    SV M; M.SetLength(L); for (long i = 0; i < L; i++) { M[i].SetLength(tau); for (long t = 0; t < tau; t++) M[i][t] = r.chance(20) ? zz_pX() : r.chance(50) ? rpoly(r, d) : trunc(rpoly(r, d) << r.in(0, d), d); }
    if (r.chance(40)) { long e = r.in(0, L - 1); SV q = modgen(r, L, std::max(1L, L / 3), d, tau); for (long i = 0; i < e; i++) M[i] = q[i]; for (long i = e; i < L; i++) if (r.chance(50)) M[i] = q[i]; }   // recurrence broken late
    VL v(L + 1); for (long n = 0; n <= L; n++) v[n] = minval_at(M, n, d, tau); for (long n = 1; n <= L; n++) v[n] = std::min(v[n], v[n - 1]); PV s; for (long i = 0; i < L && tau == 1; i++) s.append(M[i][0]);
    Vec<zz_pXY> g; const char *nm = w == 2 ? "modified_kurakin (prefix)" : scal ? "kurakin (prefix)" : "kurakin (vectors, prefix)"; k.in("S", M); k.run([&]() { if (w == 2) modified_kurakin(d, s, g); else if (scal) kurakin(d, s, g); else kurakin(d, M, g); });
    chk_gens(k, nm, M, g, v, d, w != 2, w == 2 ? 0 : 1, L);
}
OP("C21", module_gens, 60, 900, 3000)
{
    Rng &r = k.rng; int w = r.below(5); setmod(k, w == 4 ? K_LARGEONLY : K_ALL); long e, d, L; sizes(k, e, d, L, k.sz(4, 6, 9), k.sz(3, 5, 8)); long tau = r.in(1, k.sz(3, 3, 4)); SV s = modgen(r, L, e, d, tau); k.d << "d=" << d << " order<=" << e << " length=" << L << " vectors of " << tau << " routine " << w; k.tag(S("r" << w << "d" << (d == 1))); VL v = minvals(s, L / 2, d, tau);
    Vec<zz_pXY> g; k.in("S", s);
    if (w == 0) { k.run([&]() { kurakin(d, s, g); }); chk_gens(k, "kurakin (vectors)", s, g, v, d, true, true); }
    else if (w == 1) { k.run([&]() { modified_kurakin(d, s, g); }); chk_gens(k, "modified_kurakin (vectors)", s, g, v, d, false, tau == 1 ? 0 : -1); fill_in(d, g); chk_gens(k, "fill_in (vectors)", s, g, v, d, true, tau == 1 ? 0 : -1); }
    else { const char *nm = w == 2 ? "berlekamp_massey_pmbasis (vectors)" : w == 3 ? "berlekamp_massey_pmbasis_hnf" : "berlekamp_massey_pmbasis_compressed"; k.run([&]() { g.SetLength(0); if (w == 2) berlekamp_massey_pmbasis(d, s, g); else if (w == 3) berlekamp_massey_pmbasis_hnf(d, s, g); else berlekamp_massey_pmbasis_compressed(d, s, g); }); chk_module(k, nm, s, g, v, L / 2, d);
        if (w == 3) { long n = 0; while (v[n] > 0) n++; bool f = false; for (long i = 0; i <= L / 2; i++) if (g[i].degY() == n && deg(g[i].rep[n]) == 0) f = true; k.check(f, S("berlekamp_massey_pmbasis_hnf: no generator with constant leading coefficient of the least degree " << n)); } }
    if (w < 2) k.check(check_cancel(s, g, d), "check_cancel (vectors): rejects generators that cancel");
}
// listed in known_findings.json: over vectors modified_kurakin may miss the annihilator of least degree
OP("C21", modified_kurakin_vectors_min, 1, 1, 1)
{
    zz_p::init(2); const long d = 3, L = 6, c[6][2] = {{5, 5}, {6, 0}, {4, 7}, {7, 2}, {1, 7}, {4, 6}}; SV s; s.SetLength(L);
    for (long i = 0; i < L; i++) { s[i].SetLength(2); for (long t = 0; t < 2; t++) for (long j = 0; j < d; j++) if (c[i][t] >> j & 1) SetCoeff(s[i][t], j); }
    k.d << "p=2 d=3 S=" << s; Vec<zz_pXY> g; k.in("S", s); k.run([&]() { modified_kurakin(d, s, g); }); chk_gens(k, "modified_kurakin (vectors)", s, g, minvals(s, L / 2, d, 2), d, false, 0);
}
static PV umul(const PV &s, const PV &f, long d) { PV o; long dy = f.length() - 1; if (dy < 0) return o; for (long i = 0; i + dy < s.length(); i++) { zz_pX v; for (long j = 0; j <= dy; j++) v += f[j] * s[i + j]; o.append(d < 0 ? v : trunc(v, d)); } return o; }
static bool allzero(const PV &s) { for (long i = 0; i < s.length(); i++) if (s[i] != 0) return false; return true; }
OP("C21", helpers, 60, 1500, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long L = r.in(0, 10), tau = r.in(1, 3), dx = r.in(0, 6), d = r.in(0, 8); PV s = rvec(r, L, dx), s2 = rvec(r, r.in(0, 10), dx); if (r.chance(20)) for (long i = 0; i < L; i++) clear(s[i]); if (L && r.chance(30)) { for (long i = 0; i < L; i++) clear(s[i]); s[r.below(L)] = rpolyS(r, 4); }
    SV m, m2; m.SetLength(L); m2.SetLength(s2.length()); for (long i = 0; i < L; i++) m[i] = rvec(r, tau, dx); for (long i = 0; i < m2.length(); i++) m2[i] = rvec(r, tau, dx); zz_pX a = rpolyS(r, 6); zz_pXY f; f.rep = rvec(r, r.in(1, 12), 4); f.normalize(); if (r.chance(30)) { f.rep.SetLength(1); f.rep[0] = rpolyS(r, 3); f.normalize(); } int w = r.below(8); k.d << "helper " << w << " length " << L << " degY " << f.degY() << " d=" << d; k.tag(S("h" << w)); PV o, e; SV om, em; bool zf = f.is_zero();
    k.in("S", s).in("M", m);
    switch (w) {
    case 0: k.run([&]() { o = mul(s, a); om = mul(m, a); }); for (long i = 0; i < L; i++) e.append(s[i] * a); k.check(same(o, e), "mul by a polynomial"); k.check(om.length() == L, "mul (vectors): length"); for (long i = 0; i < L; i++) for (long t = 0; t < tau; t++) k.check(om[i][t] == m[i][t] * a, "mul by a polynomial (vectors)"); break;
    case 1: if (zf) break; k.run([&]() { o = mul(s, f); }); k.check(same(o, umul(s, f.rep, -1)), "mul by a bivariate polynomial: not the sequence of sums f_t S[i+t]"); break;
    case 2: if (zf) break; k.run([&]() { om = mul(m, f); }); { long n = std::max(0L, L - f.degY()); k.check(om.length() == n, S("mul by a bivariate polynomial (vectors): length " << om.length() << " instead of " << n)); for (long t = 0; t < tau; t++) { PV c, g; for (long i = 0; i < L; i++) c.append(m[i][t]); for (long i = 0; i < n; i++) g.append(om[i][t]); k.check(same(g, umul(c, f.rep, -1)), "mul by a bivariate polynomial (vectors)"); } } break;
    case 3: if (zf) break; k.run([&]() { o = mulTrunc(s, f, d); }); k.check(same(o, umul(s, f.rep, d)), "mulTrunc by a bivariate polynomial: not the truncated sums f_t S[i+t]"); break;
    case 4: if (zf) break; k.run([&]() { om = mulTrunc(m, f, d); }); { long n = std::max(0L, L - f.degY()); k.check(om.length() == n, "mulTrunc by a bivariate polynomial (vectors): length"); for (long t = 0; t < tau; t++) { PV c, g; for (long i = 0; i < L; i++) c.append(m[i][t]); for (long i = 0; i < n; i++) g.append(om[i][t]); k.check(same(g, umul(c, f.rep, d)), "mulTrunc by a bivariate polynomial (vectors)"); } } break;
    case 5: k.run([&]() { o = mulTrunc(s, a, d); om = mulTrunc(m, a, d); }); k.check(o.length() == L && om.length() == L, "mulTrunc: length"); for (long i = 0; i < L; i++) { k.check(o[i] == trunc(s[i] * a, d), "mulTrunc by a polynomial"); for (long t = 0; t < tau; t++) k.check(om[i][t] == trunc(m[i][t] * a, d), "mulTrunc by a polynomial (vectors)"); } break;
    case 6: { k.run([&]() { o = add(s, s2); om = add(m, m2); }); long n = std::min(L, s2.length()); k.check(o.length() == n && om.length() == n, "add: length"); for (long i = 0; i < n; i++) { k.check(o[i] == s[i] + s2[i], "add"); for (long t = 0; t < tau; t++) k.check(om[i][t] == m[i][t] + m2[i][t], "add (vectors)"); } long z = 0; while (z < L && s[z] == 0) z++; k.check(index_non_zero(s) == (L ? z : -1), "index_non_zero"); k.check(is_zero_seq(s) == allzero(s), "is_zero_seq"); break; }
    default: {   // check_cancel decides exactly
        long dd = r.in(1, 5); PV q = r.chance(60) ? seqgen(r, L, std::max(1L, L / 3), dd) : s; Vec<zz_pXY> g; bool want = true, wm = true; long n = r.in(0, 3); SV M = asmod(q); long D = r.chance(25) ? -1 : dd;
        for (long i = 0; i < n; i++) { zz_pXY h; if (r.chance(50)) { zz_pX x; SetCoeff(x, r.in(0, dd)); h = zz_pXY(x); h = shift_y(h, r.in(0, L)); } else { h.rep = rvec(r, r.in(1, 4), dd); h.normalize(); } if (h.is_zero()) continue; g.append(h); if (!allzero(umul(q, h.rep, D))) want = false; }
        wm = want; bool c = false, cm = false; k.run([&]() { c = check_cancel(q, g, D); cm = check_cancel(M, g, D); }); k.check(c == want, S("check_cancel: " << c << " but cancellation is " << want << " (d=" << D << ")")); k.check(cm == wm, S("check_cancel (vectors): " << cm << " but cancellation is " << wm)); k.tag(want ? "yes" : "no"); } }
}
OP("C21", minpoly_lifting, 60, 900, 3000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, k.sz(5, 12, 40)), d = r.chance(20) ? 1 : r.in(1, k.sz(6, 12, 30)), L = 2 * n + r.below(2); PV s; s.SetLength(L); CM H; H.SetDims(n, n);
    // any first 2n terms with an invertible Hankel matrix modulo x
    bool ok = false; for (int a = 0; a < 20 && !ok; a++) { for (long i = 0; i < L; i++) s[i] = r.chance(20) ? rpolyS(r, d) : rpoly(r, r.chance(20) ? d + 2 : d); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) H[i][j] = coeff(s[i + j], 0); ok = rdet(H) != 0; } if (!ok) throw Skip{};
    if (r.chance(30)) for (long i = L - 1; i >= 2 * n - 1; i--) clear(s[i]); else if (r.chance(20)) for (long i = n; i < 2 * n; i++) { PV t = s; SetCoeff(s[i], 0, 0); for (long u = 0; u < n; u++) for (long j = 0; j < n; j++) H[u][j] = coeff(s[u + j], 0); if (rdet(H) == 0) s = t; }
    k.d << "d=" << d << " n=" << n << " length=" << L; k.tag(S("d" << d % 2 << (d == 1) << "n" << (n == 1))); zz_pXY P; if (r.chance(40)) { P.rep = rvec(r, 3, 2); P.normalize(); } k.in("S", s); k.run([&]() { minpoly_nondegenerate(d, s, P); });
    k.check(normalized(P.rep) && P.rep.length() == n + 1 && IsOne(P.rep[n]), S("minpoly_nondegenerate: not monic of degree " << n)); for (long i = 0; i <= n; i++) k.check(deg(P.rep[i]) < d, "minpoly_nondegenerate: coefficient not reduced modulo x^d");
    PV t; for (long i = 0; i < 2 * n; i++) t.append(s[i]); k.check(allzero(umul(t, P.rep, d)), "minpoly_nondegenerate: does not cancel the sequence");
}
