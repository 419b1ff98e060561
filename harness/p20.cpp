// C20: bivariate polynomials
#include "common.h"
#include "lzz_pXY.h"
PML_CLIENT
static bool okn(const zz_pXY &f) { return normalized(f.rep) && (f.rep.length() == 0 || f.rep[f.rep.length() - 1] != 0); }
static PV nrm(PV v) { long n = v.length(); while (n > 0 && v[n - 1] == 0) n--; v.SetLength(n); return v; }
static zz_pXY rxy(Rng &r, long dx, long dy)
{
    PV v; v.SetLength(dy); int w = r.below(6);
    for (long i = 0; i < dy; i++) { if (w == 0) v[i] = rpoly(r, dx); else if (w == 1) v[i] = rpolyS(r, dx); else if (w == 2) { if (r.chance(30)) v[i] = rpoly(r, dx); } else if (w == 3) v[i] = rpoly(r, std::max(0L, dx - i)); else if (w == 4) v[i] = rpoly(r, r.in(0, dx)); else { if (i == dy - 1) v[i] = rpolyS(r, dx); } }
    zz_pXY f; f.rep = nrm(v); return f;
}
static PV gv(const zz_pXY &f, long n) { PV v = f.rep; long l = v.length(); v.SetLength(n); for (long i = l; i < n; i++) clear(v[i]); return v; }
static PV padd(const PV &a, const PV &b, bool sub) { long n = std::max(a.length(), b.length()); PV c; c.SetLength(n); for (long i = 0; i < n; i++) { c[i] = i < a.length() ? a[i] : zz_pX(); if (i < b.length()) c[i] = sub ? c[i] - b[i] : c[i] + b[i]; } return nrm(c); }
static PV pmul(const PV &a, const PV &b) { PV c; if (a.length() == 0 || b.length() == 0) return c; c.SetLength(a.length() + b.length() - 1); for (long i = 0; i < a.length(); i++) for (long j = 0; j < b.length(); j++) c[i + j] += a[i] * b[j]; return nrm(c); }
static void junkxy(Rng &r, zz_pXY &f) { if (r.chance(60)) f = rxy(r, 7, 7); }
OP("C20", ring, 120, 3000, 12000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long M = r.chance(70) ? 8 : k.sz(10, 30, 60); zz_pXY f = rxy(r, r.in(0, M), r.in(0, M)), g = rxy(r, r.in(0, M), r.in(0, M)), c; if (r.chance(10)) g = f; if (r.chance(10)) { g.rep = f.rep; for (long i = 0; i < g.rep.length(); i++) g.rep[i] = -g.rep[i]; if (g.rep.length() && r.chance(50)) { g.rep[0] += rpoly(r, 3); g.rep = nrm(g.rep); } }
    junkxy(r, c); zz_pXY f0 = f, g0 = g; int w = r.below(7); zz_p s = r.chance(15) ? to_zz_p(0) : rc(r); k.tag(S("op" << w)); k.d << "op " << w << " degX " << f.degX() << "," << g.degX() << " degY " << f.degY() << "," << g.degY(); int al = r.below(4); k.tag(S("alias" << al));
    PV e = w == 0 ? padd(f.rep, g.rep, false) : w == 1 ? padd(f.rep, g.rep, true) : w <= 5 ? pmul(f.rep, g.rep) : PV(); if (al == 3) { g = f; g0 = f0; e = w == 0 ? padd(f.rep, f.rep, false) : w == 1 ? PV() : pmul(f.rep, f.rep); }
    if (w == 6) { e = f.rep; for (long i = 0; i < e.length(); i++) e[i] *= s; e = nrm(e); }
    zz_pXY &A = f, &B = al == 3 ? f : g, &C = al == 0 ? c : al == 1 ? f : al == 2 ? g : f; if (w == 6 && al == 2) al = 0;
    zz_pXY &CC = (w == 6 && &C == &g) ? c : C;
    k.in("f", f0.rep); k.run([&]() { if (k.mode == M_PURE) { f = f0; g = g0; } switch (w) { case 0: add(CC, A, B); break; case 1: sub(CC, A, B); break; case 2: mul_naive(CC, A, B); break; case 3: mul_kronecker(CC, A, B); break; case 4: mul(CC, A, B); break; case 5: CC = A * B; break; default: mul(CC, A, s); } });
    k.check(okn(CC), "representation not normalized"); k.check(same(CC.rep, e), S("operation " << w << " (aliasing " << al << ") differs from its definition"));
    if (&CC != &f) k.check(same(f.rep, f0.rep), "operand changed"); if (&CC != &g) k.check(same(g.rep, g0.rep), "operand changed"); k.check((CC == CC) && !(CC != CC), "equality"); zz_pXY h; h.rep = e; SetCoeff(h, r.below(5), rpoly(r, 4)); k.check((h == CC) == (long)same(h.rep, CC.rep), "operator=="); k.check(okn(h), "SetCoeff leaves a non-normalized representation");
    k.check(same((f0 + g0).rep, padd(f0.rep, g0.rep, false)) && same((f0 - g0).rep, padd(f0.rep, g0.rep, true)), "operators + and -");
}
OP("C20", misc, 120, 3000, 12000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long M = r.chance(70) ? 8 : k.sz(10, 30, 60); zz_pXY f = rxy(r, r.in(0, M), r.in(0, M)), b; junkxy(r, b); PV F = f.rep; long dx = -1, td = -1; for (long i = 0; i < F.length(); i++) { dx = std::max(dx, deg(F[i])); if (F[i] != 0) td = std::max(td, deg(F[i]) + i); } k.d << "degX " << dx << " degY " << F.length() - 1;
    k.check(f.degX() == dx && f.degY() == F.length() - 1 && f.tdeg() == td && (f.is_zero() != 0) == (F.length() == 0), "degrees");
    bool al = r.chance(35); zz_pXY f1 = f; zz_pXY &O = al ? f1 : b; const zz_pXY &I = al ? f1 : f; int w = r.below(9); k.tag(S("op" << w)); if (al) k.tag("alias"); long i = r.chance(30) ? 0 : r.in(0, M + 3); k.d << " op " << w << " amount " << i << (al ? " same object" : ""); PV e;
    k.in("f", f.rep);
    switch (w) {
    case 0: { long s = r.chance(50) ? i : -i; k.run([&]() { f1 = f; shift_x(O, I, s); }); e = F; for (long j = 0; j < e.length(); j++) e[j] = s >= 0 ? e[j] << s : e[j] >> -s; e = nrm(e); break; }
    case 1: { long s = r.chance(50) ? i : -i; k.run([&]() { f1 = f; shift_y(O, I, s); }); e.SetLength(std::max(0L, F.length() + s)); for (long j = 0; j < e.length(); j++) if (j - s >= 0 && j - s < F.length()) e[j] = F[j - s]; e = nrm(e); break; }
    case 2: k.run([&]() { f1 = f; trunc_x(O, I, i); }); e = F; for (long j = 0; j < e.length(); j++) trunc(e[j], e[j], i); e = nrm(e); break;
    case 3: k.run([&]() { f1 = f; trunc_y(O, I, i); }); e = F; if (i < e.length()) e.SetLength(i); e = nrm(e); break;
    case 4: { zz_p x = rc(r); zz_pX v = rpoly(r, 4), ev; k.run([&]() { evaluate(v, f, x); }); for (long j = 0; j < F.length(); j++) SetCoeff(ev, j, eval(F[j], x)); k.check(normalized(v) && v == ev, "evaluate"); return; }
    case 5: { long s = dx + r.in(0, 3); if (s < 0) s = 0; zz_pX u = rpoly(r, 9), v; PV g = gv(f, F.length() + r.below(3)); bool vec = r.chance(50); if (vec) k.run([&]() { to_kronecker(u, g, s); }); else k.run([&]() { to_kronecker(u, f, s); }); for (long j = 0; j < F.length(); j++) for (long q = 0; q <= deg(F[j]); q++) SetCoeff(v, q + j * (s + 1), coeff(F[j], q)); k.check(normalized(u) && u == v, "to_kronecker"); if (vec) { PV o; if (r.chance(50)) o = rvec(r, 5, 5); k.run([&]() { from_kronecker(o, u, s); }); k.check(normalized(o) && same(o, F), "from_kronecker(vector)"); } else { k.run([&]() { from_kronecker(b, u, s); }); k.check(okn(b) && same(b.rep, F), "from_kronecker"); } return; }
    case 6: { zz_pX c = rpolyS(r, 5); long j = r.in(0, F.length() + 3); f1 = f; k.run([&]() { f1 = f; SetCoeff(f1, j, c); }); e = gv(f, std::max(F.length(), j + 1)); e[j] = c; e = nrm(e); k.check(okn(f1) && same(f1.rep, e), "SetCoeff"); return; }
    case 7: { PV g = gv(f, F.length() + r.below(4)); zz_pXY h(g); k.check(okn(h) && same(h.rep, F), "constructor from a vector"); zz_pX c = rpolyS(r, 4); zz_pXY q(c); k.check(okn(q) && q.rep.length() == (c == 0 ? 0 : 1) && (c == 0 || q.rep[0] == c), "constructor from a polynomial"); h.rep = g; h.normalize(); k.check(same(h.rep, F), "normalize"); h.zero(); k.check(h.is_zero() && h.rep.length() == 0, "zero"); return; }
    default: { long a = r.in(0, 6), c = r.in(0, 6); SetSeed(to_ZZ((long)(r.next() >> 2))); k.run([&]() { random_zz_pXY(b, a, c); }); k.check(okn(b) && b.degX() < std::max(a, 1L) + (a == 0 ? 0 : 0) && b.degY() < c + (c == 0 ? 1 : 0), S("random_zz_pXY(" << a << "," << c << "): degrees or representation")); if (a == 0) k.check(b.is_zero(), "random_zz_pXY with degX < 0"); return; }
    }
    k.check(okn(O), "representation not normalized"); k.check(same(O.rep, e), S("operation " << w << " differs from its definition")); if (!al) k.check(same(f.rep, F), "operand changed");
}
static zz_pX at(const PV &F, const zz_p &x) { zz_pX v; for (long j = 0; j < F.length(); j++) SetCoeff(v, j, eval(F[j], x)); return v; }
static PM sylv(const PV &A, const PV &B) { long da = A.length() - 1, db = B.length() - 1, n = da + db; PM D; D.SetDims(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i][i + j] = A[da - j]; for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[db + i][i + j] = B[db - j]; return D; }
static bool is_res(Ctx &k, const zz_pX &R, const PV &F, const PV &G, zz_p &c)   // R == c * resultant at many points of full specialisation; c fixed by the first
{
    Rng &r = k.rng; bool have = c != 0; long bound = 0, fx = 0, gx = 0; for (long i = 0; i < F.length(); i++) fx = std::max(fx, deg(F[i])); for (long i = 0; i < G.length(); i++) gx = std::max(gx, deg(G[i])); bound = fx * (G.length() - 1) + gx * (F.length() - 1); if (deg(R) > bound) return false;
    long n = F.length() + G.length() - 2; if (have && n <= 8 && bound <= 60 && r.chance(50)) return R == c * rdet(sylv(F, G));
    for (long t = 0; t < 6; t++) { zz_p x = rc(r); zz_pX a = at(F, x), b = at(G, x); if (deg(a) < F.length() - 1 || deg(b) < G.length() - 1) continue; zz_p v = resultant(a, b), u = eval(R, x); if (!have) { if (v == 0 || u == 0) { if (v != u) return false; continue; } c = u / v; have = true; continue; } if (u != c * v) return false; }
    return true;
}
OP("C20", resultant, 60, 1500, 5000)
{
    Rng &r = k.rng; bool lg = r.chance(50); long p = setmod(k, lg ? K_LARGEONLY : K_ALL), N = r.chance(80) ? 6 : k.sz(6, 14, 30); bool z = r.chance(3); zz_pXY f, g; do { f = rxy(r, r.in(1, N), r.in(1, N)); } while (f.is_zero()); do { g = rxy(r, r.in(1, N), r.in(1, N)); } while (g.is_zero()); int w = r.below(8); k.tag(S("shape" << w));
    if (w == 0) { zz_pXY h = rxy(r, 3, 3); if (!h.is_zero()) { f.rep = pmul(f.rep, h.rep); g.rep = pmul(g.rep, h.rep); } } if (w == 1) { for (long i = 0; i < f.rep.length(); i++) f.rep[i] = trunc(f.rep[i], 1); f.rep = nrm(f.rep); if (f.is_zero()) throw Skip{}; } if (w == 2) g = f; if (w == 3) f.rep[f.rep.length() - 1] *= rpoly(r, 2) + zz_pX(INIT_MONO, 2);
    if (w == 4) { zz_pXY &h = r.chance(50) ? f : g; h.rep[h.rep.length() - 1] = rpoly(r, 2) + zz_pX(INIT_MONO, 2); } if (z) { if (r.chance(50)) f.zero(); if (f.rep.length() && r.chance(70)) g.zero(); k.tag("zero"); }
    zz_pX R = rpoly(r, 5); long ret = -1; k.d << "degX " << f.degX() << "," << g.degX() << " degY " << f.degY() << "," << g.degY() << " shape " << w; k.in("f", f.rep).in("g", g.rep).out("res", R); k.run([&]() { ret = resultant(R, f, g); k.undef = ret != 1; }); k.check(ret == 0 || ret == 1, "return value"); zz_p c = to_zz_p(1);
    if (ret == 0 && p < (1L << 24)) { k.tag("fieldtoosmall"); return; } if (p < (1L << 24)) k.tag("smallfield");
    if (ret == 0) { k.run([&]() { ret = resultant(R, f, g); }); k.check(ret == 1, "resultant: failure reported twice over a large field"); } k.check(normalized(R), "resultant not normalized"); if (f.is_zero() || g.is_zero()) { k.check(R == 0, "resultant with a zero polynomial is not zero"); return; } k.check(is_res(k, R, f.rep, g.rep, c), "resultant: success reported with a wrong resultant");
}
OP("C20", resultant_villard, 40, 500, 1500)
{
    setmod(k, K_LARGEONLY); Rng &r = k.rng; bool td = r.chance(50); long n = r.chance(80) ? r.in(2, 9) : r.in(2, k.sz(10, 20, 32)), d = r.in(1, r.chance(80) ? 5 : k.sz(5, 9, 14)); zz_pXY f, g; f.rep.SetLength(n + 1); g.rep.SetLength(n + 1); if (td) d = n;
    for (long i = 0; i <= n; i++) { f.rep[i] = rpoly(r, td ? n + 1 - i : d + 1); g.rep[i] = rpoly(r, td ? n + 1 - i : d + 1); } if (td && n < 3) throw Skip{}; k.d << (td ? "total degree " : "degrees ") << n << "," << d; k.tag(td ? "tdeg" : "maxdeg"); if (!okn(f) || !okn(g)) throw Skip{};
    zz_pX R; long ret = -1; bool ok = false; for (int q = 0; q < 3 && !ok; q++) { k.in("f", f.rep).in("g", g.rep).out("res", R); k.run([&]() { ret = td ? resultant_villard_tdeg(R, f, g) : resultant_villard(R, f, g); k.undef = ret != 1; }); k.clearReg(); ok = ret == 1; } k.check(ok, "failure reported three times on generic input over a large field"); zz_p c = to_zz_p(0); k.check(normalized(R) && R != 0 && is_res(k, R, f.rep, g.rep, c), "success reported with a polynomial that is not a constant multiple of the resultant"); long dres = td ? n * n : 2 * n * d; k.check(deg(R) == dres, S("degree " << deg(R) << " of the generic resultant instead of " << dres));
}
OP("C20", value_forms, 100, 2500, 10000)
{
    setmod(k, K_ALL); Rng &r = k.rng; zz_pXY f = rxy(r, r.in(0, 7), r.in(0, 7)), g = rxy(r, r.in(0, 7), r.in(0, 7)), c; zz_p s = r.chance(15) ? to_zz_p(0) : rc(r); int w = r.below(12); k.tag(S("op" << w)); long i = r.in(0, 9); k.d << "op " << w << " amount " << i; k.in("f", f.rep).in("g", g.rep); PV e, F = f.rep;
    switch (w) {
    case 0: k.run([&]() { c = random_zz_pXY(i, i + 1); }); k.check(okn(c) && c.degX() < std::max(i, 1L) && c.degY() <= i, "random_zz_pXY: degrees"); return;
    case 1: { zz_pX v; k.run([&]() { v = evaluate(f, s); }); k.check(normalized(v) && v == at(F, s), "evaluate"); return; }
    case 2: k.run([&]() { c = mul(f, s); }); for (auto &x : F) x *= s; e = nrm(F); break;
    case 3: k.run([&]() { c = f * s; }); for (auto &x : F) x *= s; e = nrm(F); break;
    case 4: k.run([&]() { c = mul_naive(f, g); }); e = pmul(F, g.rep); break;
    case 5: k.run([&]() { c = mul_kronecker(f, g); }); e = pmul(F, g.rep); break;
    case 6: k.run([&]() { c = i % 2 ? mul(f, g) : f * g; }); e = pmul(F, g.rep); break;
    case 7: k.run([&]() { c = add(f, g); }); e = padd(F, g.rep, false); break;
    case 8: k.run([&]() { c = sub(f, g); }); e = padd(F, g.rep, true); break;
    case 9: k.run([&]() { c = shift_x(f, i); }); for (auto &x : F) x <<= i; e = nrm(F); break;
    case 10: k.run([&]() { c = trunc_x(f, i); }); for (auto &x : F) x = trunc(x, i); e = nrm(F); break;
    default: k.run([&]() { c = trunc_y(f, i); }); if (i < F.length()) F.SetLength(i); e = nrm(F); break;
    }
    k.check(okn(c), "representation not normalized"); k.check(same(c.rep, e), S("operation " << w << " differs from its definition")); k.check(same(f.rep, gv(f, f.rep.length())), "operand changed");
}
