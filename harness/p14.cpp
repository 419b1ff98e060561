// C14: multipoint evaluation objects: sequences of uses of one object, every answer compared with the definition
#include "common.h"
#include "lzz_pX_CRT.h"
PML_CLIENT
typedef Vec<CV> VV;
static zz_p horner(const zz_pX &f, const zz_p &x) { zz_p s = to_zz_p(0); for (long i = deg(f); i >= 0; i--) s = s * x + f.rep[i]; return s; }
static CV r_eval(const zz_pX &f, const CV &pts) { CV v; v.SetLength(pts.length()); for (long i = 0; i < pts.length(); i++) v[i] = horner(f, pts[i]); return v; }
// sum_i v_i pt_i^j, j < sz
static zz_pX r_teval(const CV &v, const CV &pts, long sz)
{
    zz_pX f; if (sz <= 0) return f; f.rep.SetLength(sz); CV w = v;
    for (long j = 0; j < sz; j++) { zz_p s = to_zz_p(0); for (long i = 0; i < w.length(); i++) { s += w[i]; w[i] *= pts[i]; } f.rep[j] = s; }
    f.normalize(); return f;
}
static CV values(Rng &r, long n) { CV v = rcv(r, n); if (r.chance(25)) for (long i = 0; i < n; i++) if (r.chance(70)) v[i] = 0; return v; }
// a polynomial whose storage still holds older, longer content
static zz_pX used(Rng &r, const zz_pX &f, long n) { zz_pX g; g.rep.SetLength(n + 3); for (long i = 0; i < n + 3; i++) g.rep[i] = rnz(r); g = f; return g; }

static void uses(Ctx &k, zz_pX_Multipoint *mp, zz_pX_Multipoint_Geometric *ge, const CV &pts, long steps, bool geo)
{
    Rng &r = k.rng; long n = pts.length();
    k.check(mp->length() == n, "length() is not the number of points");
    for (long st = 0; st < steps; st++) {
        int w = r.below(geo ? 20 : 12);
        switch (w) {
        case 0: case 1: { zz_pX f = rpolyS(r, r.chance(60) ? n : r.in(0, n)); CV v; if (geo && r.chance(25)) { zz_pX g = used(r, f, n); k.inout("g", g); k.run([&]() { mp->evaluate(g.rep, g); }); v = g.rep; k.tag("alias"); } else { k.in("f", f).out("val", v); k.run([&]() { mp->evaluate(v, f); }); }
            k.check(v.length() == n && normalized(v) && same(v, r_eval(f, pts)), S("step " << st << ": evaluate differs from the values at the points, deg f=" << deg(f))); break; }
        case 2: case 3: { CV v = values(r, n); zz_pX f; if (geo && r.chance(20)) { f.rep = v; k.inout("f", f); k.run([&]() { mp->interpolate(f, f.rep); }); k.tag("alias"); } else { k.in("val", v).out("f", f); k.run([&]() { mp->interpolate(f, v); }); }
            k.check(normalized(f) && deg(f) < n && same(r_eval(f, pts), v), S("step " << st << ": interpolate does not return the polynomial with the given values")); break; }
        case 4: { CV v = values(r, n); zz_pX f; k.in("val", v).out("P", f); k.run([&]() { mp->t_evaluate(f, v); }); k.check(normalized(f) && f == r_teval(v, pts, n), S("step " << st << ": t_evaluate is not the transpose of evaluate")); break; }
        case 5: { CV v = values(r, n); long os = r.in(0, n); zz_pX f; k.in("val", v).out("P", f); k.run([&]() { mp->t_evaluate(f, v, os); }); k.check(normalized(f) && f == r_teval(v, pts, os), S("step " << st << ": t_evaluate with output size " << os << " is not the transpose of evaluate, degree " << deg(f))); break; }
        case 6: case 7: { zz_pX f = rpolyS(r, r.chance(60) ? n : r.in(0, n)); CV v; k.in("P", f).out("val", v); k.run([&]() { mp->t_interpolate(v, f); });
            k.check(v.length() == n && normalized(v) && r_teval(v, pts, n) == f, S("step " << st << ": t_interpolate is not the inverse transpose")); break; }
        case 8: { long s = r.in(0, 4); PV f = rvec(r, s, n); VV v; k.in("P", f).out("val", v); k.run([&]() { mp->evaluate_vector(v, f); }); k.check(v.length() == n, "evaluate_vector: length"); for (long i = 0; i < n; i++) k.check(v[i].length() == s, "evaluate_vector: inner length");
            for (long j = 0; j < s; j++) { CV e = r_eval(f[j], pts); for (long i = 0; i < n; i++) k.check(v[i][j] == e[i], S("step " << st << ": evaluate_vector wrong")); }
            PV g; k.in("val", v).out("P", g); k.run([&]() { mp->interpolate_vector(g, v); }); k.check(same(f, g), S("step " << st << ": interpolate_vector does not invert evaluate_vector"));
            VV tv; k.in("P", f).out("val", tv); k.run([&]() { mp->t_interpolate_vector(tv, f); }); PV h; long os = r.chance(50) ? -1 : r.in(1, n); k.in("val", tv).out("P", h); k.run([&]() { mp->t_evaluate_vector(h, tv, os); });
            k.check(tv.length() == n && h.length() == s, "transposed vector versions: length"); for (long j = 0; j < s; j++) k.check(h[j] == trunc(f[j], os < 0 ? n : os), S("step " << st << ": t_evaluate_vector does not invert t_interpolate_vector"));
            for (long j = 0; j < s; j++) { CV c; c.SetLength(n); for (long i = 0; i < n; i++) c[i] = tv[i][j]; k.check(r_teval(c, pts, n) == f[j], S("step " << st << ": t_interpolate_vector wrong")); } break; }
        case 9: { long s = r.in(0, 3), t = r.in(0, 3); PM f = rmatS(r, s, t, n); Vec<CM> v; k.in("P", f).out("val", v); k.run([&]() { mp->evaluate_matrix(v, f); }); k.check(v.length() == n, "evaluate_matrix: length"); for (long i = 0; i < n; i++) k.check(v[i].NumRows() == s && v[i].NumCols() == t, "evaluate_matrix: dimensions");
            for (long a = 0; a < s; a++) for (long b = 0; b < t; b++) { CV e = r_eval(f[a][b], pts); for (long i = 0; i < n; i++) k.check(v[i][a][b] == e[i], S("step " << st << ": evaluate_matrix wrong")); }
            PM g; k.in("val", v).out("P", g); k.run([&]() { mp->interpolate_matrix(g, v); }); k.check(same(f, g), S("step " << st << ": interpolate_matrix does not invert evaluate_matrix"));
            Vec<CM> tv; k.in("P", f).out("val", tv); k.run([&]() { mp->t_interpolate_matrix(tv, f); }); PM h; long os = r.chance(50) ? -1 : r.in(1, n); k.in("val", tv).out("P", h); k.run([&]() { mp->t_evaluate_matrix(h, tv, os); });
            k.check(tv.length() == n && same(h, rtrunc(f, os < 0 ? n : os)), S("step " << st << ": t_evaluate_matrix does not invert t_interpolate_matrix"));
            for (long a = 0; a < s; a++) for (long b = 0; b < t; b++) { CV c; c.SetLength(n); for (long i = 0; i < n; i++) c[i] = tv[i][a][b]; k.check(r_teval(c, pts, n) == f[a][b], S("step " << st << ": t_interpolate_matrix wrong")); } break; }
        case 10: { CV q; mp->get_points(q); k.check(same(q, pts), S("step " << st << ": get_points")); zz_p x; long i = r.below(n); mp->get_point(x, i); k.check(x == pts[i], S("step " << st << ": get_point")); if (n <= 40 && r.chance(40)) { CM M; mp->to_dense(M); k.check(M.NumRows() == n && M.NumCols() == n, "to_dense: dimensions"); k.check(same(mp->to_dense(), M), S("step " << st << ": value-returning to_dense")); for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) k.check(M[a][b] == power(pts[a], b), S("step " << st << ": to_dense is not the Vandermonde matrix")); } break; }
        case 11: perturb_history(r); k.tag("foreign"); break;
        case 12: { zz_pX f = rpolyS(r, r.chance(60) ? n : r.in(0, n)); long nb = r.chance(50) ? r.in(0, n) : r.in(0, 3 * n + 2); CV v, q; k.in("f", f).out("val", v); k.run([&]() { ge->evaluate(v, f, nb); }); q.SetLength(nb); zz_p rt = n > 1 ? pts[1] / pts[0] : to_zz_p(1); zz_p x = pts[0]; for (long i = 0; i < nb; i++) { q[i] = x; x *= rt; }
            k.check(v.length() == nb && same(v, r_eval(f, q)), S("step " << st << ": evaluate at " << nb << " points of the progression")); break; }
        case 13: { CV f = values(r, n), v; zz_pX F; F.rep = f; F.normalize(); if (r.chance(30)) { v = f; k.inout("v", v); k.run([&]() { ge->mul_right(v, v); }); } else { k.in("f", f).out("val", v); k.run([&]() { ge->mul_right(v, f); }); } k.check(same(v, r_eval(F, pts)), S("step " << st << ": mul_right")); break; }
        case 14: { CV v = values(r, n), f; if (r.chance(30)) { f = v; k.inout("f", f); k.run([&]() { ge->inv_mul_right(f, f); }); } else { k.in("val", v).out("f", f); k.run([&]() { ge->inv_mul_right(f, v); }); } zz_pX F; F.rep = f; F.normalize(); k.check(f.length() == n && normalized(f) && same(r_eval(F, pts), v), S("step " << st << ": inv_mul_right")); break; }
        case 15: { CV v = values(r, n), f; if (r.chance(30)) { f = v; k.inout("f", f); k.run([&]() { ge->mul_left(f, f); }); } else { k.in("val", v).out("f", f); k.run([&]() { ge->mul_left(f, v); }); } zz_pX F; F.rep = f; F.normalize(); k.check(f.length() == n && normalized(f) && F == r_teval(v, pts, n), S("step " << st << ": mul_left")); break; }
        case 16: { CV f = values(r, n), v; zz_pX F; F.rep = f; F.normalize(); if (r.chance(30)) { v = f; k.inout("v", v); k.run([&]() { ge->inv_mul_left(v, v); }); } else { k.in("f", f).out("val", v); k.run([&]() { ge->inv_mul_left(v, f); }); } k.check(v.length() == n && normalized(v) && r_teval(v, pts, n) == F, S("step " << st << ": inv_mul_left")); break; }
        case 17: { if (r.chance(50)) ge->set_FFT_evaluate(); else ge->unset_FFT_evaluate(); break; }
        case 18: { int z = r.below(5); if (z < 2) ge->set_FFT_interpolate(); else if (z < 4) ge->unset_FFT_interpolate(); else ge->decide_FFT(); k.tag(S("flags" << ge->FFT_evaluate() << ge->FFT_interpolate())); break; }
        default: { long d = r.chance(30) ? n - 1 : r.in(0, n - 1); ge->prepare_degree(d); k.tag("prepared"); if (r.chance(60)) st--; zz_pX f = rpolyS(r, std::max(1L, std::min(n, d + 1 + r.in(-1, 1)))); CV v; k.in("f", f).out("val", v); k.run([&]() { mp->evaluate(v, f); }); k.check(same(v, r_eval(f, pts)), S("step " << st << ": evaluate after preparing degree " << d << ", deg f=" << deg(f))); }
        }
    }
}
static long npts(Ctx &k, long mx) { Rng &r = k.rng; int a = r.below(5); return a == 0 ? r.in(1, 4) : a == 1 ? r.in(1, 20) : a == 2 ? std::max(1L, (1L << r.in(0, 6)) + r.in(-1, 1)) : r.in(1, mx); }
OP("C14", general, 80, 1500, 5000)
{
    long p = setmod(k, K_ALL); Rng &r = k.rng; long n = std::min(npts(k, k.sz(40, 130, 500)), p); k.d << "n=" << n; CV pts; pts.SetLength(n);
    std::vector<long> seen; for (long i = 0; i < n; i++) { long x; do { x = p < 2 * n ? r.below(p) : rep(rc(r)); } while (std::find(seen.begin(), seen.end(), x) != seen.end()); seen.push_back(x); pts[i] = to_zz_p(x); }
    int w = r.below(4); zz_pX_Multipoint_General g;
    if (w == 0) { g = get_general_points(n); CV q; g.get_points(q); k.check(q.length() == n, "get_general_points: number of points"); std::vector<long> s; for (long i = 0; i < n; i++) s.push_back(rep(q[i])); std::sort(s.begin(), s.end()); k.check(std::unique(s.begin(), s.end()) == s.end(), "get_general_points: repeated points"); pts = q; }
    else if (w == 1) { long o = r.in(0, 5), e = r.in(0, 5); CV big = rcv(r, o + n + e); for (long i = 0; i < n; i++) big[o + i] = pts[i]; k.d << " offset=" << o; g = zz_pX_Multipoint_General(big, o, n); }
    else g = zz_pX_Multipoint_General(pts);
    k.tag(S("ctor" << w)); long st = r.in(1, 8);
    if (r.chance(25)) { CV v = values(r, n); long os = n + r.in(1, n + 4); zz_pX f; k.in("val", v).out("P", f); k.run([&]() { g.t_evaluate(f, v, os); }); k.check(normalized(f) && f == r_teval(v, pts, os), S("t_evaluate with output size " << os << " > n is not the transpose of evaluate")); }
    if (r.chance(30)) { zz_pX_Multipoint_General h(g); uses(k, &h, 0, pts, 2, false); uses(k, &g, 0, pts, st, false); uses(k, &h, 0, pts, 2, false); } else uses(k, &g, 0, pts, st, false);
}
// smallest order condition checked by hand: r^i != 1 for 0 < i < bound
static bool order_ge(const zz_p &x, long b) { zz_p t = x; for (long i = 1; i < b; i++) { if (t == 1) return false; t *= x; } return true; }
static void geo_case(Ctx &k, long n, const zz_p &rr, const zz_p &s)
{
    Rng &r = k.rng; CV pts; pts.SetLength(n); zz_p x = s; for (long i = 0; i < n; i++) { pts[i] = x; x *= rr * rr; } k.d << " r=" << rr << " s=" << s;
    std::unique_ptr<zz_pX_Multipoint_Geometric> g(s == 1 && r.chance(60) ? new zz_pX_Multipoint_Geometric(rr, n) : new zz_pX_Multipoint_Geometric(rr, s, n));
    if (n > 1) k.check(g->get_q() == rr * rr, "get_q is not the ratio"); k.check(g->get_s() == s, "get_s is not the base");
    long st = r.in(2, 14);
    if (r.chance(30)) { std::unique_ptr<zz_pX_Multipoint_Geometric> h; uses(k, g.get(), g.get(), pts, 3, true); h.reset(new zz_pX_Multipoint_Geometric(*g)); if (r.chance(50)) uses(k, g.get(), g.get(), pts, 3, true); g.reset(); uses(k, h.get(), h.get(), pts, st, true); }
    else uses(k, g.get(), g.get(), pts, st, true);
}
OP("C14", geometric, 120, 3000, 10000)
{
    long p = setmod(k, K_ALL); Rng &r = k.rng; long n = npts(k, k.sz(40, 150, 600)); if (p < 5) n = 1; while (p - 1 < 2 * n - 1 && n > 1) n = (n + 1) / 2; zz_p x; long t = 0;
    do { x = rnz(r); if (++t % 20 == 0) n = (n + 1) / 2; } while (!order_ge(x, 2 * n - 1)); k.d << "n=" << n;
    geo_case(k, n, x, r.chance(35) ? to_zz_p(1) : rnz(r));
}
// FFT primes with too few roots of unity for the transform
OP("C14", geometric_low_order, 20, 250, 900)
{
    static const long q[] = {97, 193, 353, 673, 929, 257}; Rng &r = k.rng; long p = q[r.below(6)]; zz_p::UserFFTInit(p); long n = r.in(9, 24); zz_p x; do { x = rnz(r); } while (!order_ge(x, 2 * n - 1)); k.d << "p=UFFT:" << p << " n=" << n;
    geo_case(k, n, x, r.chance(35) ? to_zz_p(1) : rnz(r));
}
OP("C14", geometric_get, 20, 300, 1000)
{
    setmod(k, K_NOTINY); Rng &r = k.rng; long n = npts(k, k.sz(30, 120, 500)); k.d << "n=" << n; zz_pX_Multipoint_Geometric g = get_geometric_points(n); k.check(g.length() == n, "get_geometric_points: number of points"); CV q; g.get_points(q); zz_p rt = g.get_q(), s = g.get_s();
    for (long i = 0; i < n; i++) k.check(q[i] == s * power(rt, i), "get_geometric_points: points are not the announced progression");
    std::vector<long> z; for (long i = 0; i < n; i++) z.push_back(rep(q[i])); std::sort(z.begin(), z.end()); k.check(std::unique(z.begin(), z.end()) == z.end(), "get_geometric_points: repeated points");
    uses(k, &g, &g, q, r.in(1, 8), true);
}
OP("C14", fft, 60, 800, 3000)
{
    setmod(k, K_FFT | K_UFFT); Rng &r = k.rng; long e = r.chance(3) ? r.in(4, k.sz(6, 10, 12)) : r.in(0, k.sz(5, 7, 9)), n = 1L << e; k.d << "n=" << n; zz_pX_Multipoint_FFT g;
    if (r.chance(40)) { long a = e == 0 ? 1 : r.in(n / 2 + 1, n); g = get_FFT_points(a); k.check(g.length() == n, "get_FFT_points: number of points"); } else g = zz_pX_Multipoint_FFT(n);
    zz_p pt; long pi = r.below(n); bool first = r.chance(50); if (first) g.get_point(pt, pi);
    CV q; g.get_points(q); if (first) k.check(pt == q[pi], "get_point on a fresh object"); std::vector<long> z; for (long i = 0; i < n; i++) { z.push_back(rep(q[i])); k.check(power(q[i], n) == 1, "FFT point is not a root of unity of the right order"); } std::sort(z.begin(), z.end()); k.check(std::unique(z.begin(), z.end()) == z.end(), "FFT points repeated");
    if (r.chance(30)) { zz_pX_Multipoint_FFT h(g); uses(k, &h, 0, q, 3, false); uses(k, &g, 0, q, r.in(1, 6), false); } else uses(k, &g, 0, q, r.in(1, 8), false);
}

// objects without points, empty families
OP("C14", no_points, 6, 60, 150)
{
    setmod(k, K_NOTINY); Rng &r = k.rng; CV none; zz_pX_Multipoint_General g0; std::unique_ptr<zz_pX_Multipoint> m; int w = r.below(2);
    zz_p q; element_of_order(q, 5); if (w == 0) m.reset(new zz_pX_Multipoint_General(get_general_points(r.in(1, 4)))); else m.reset(new zz_pX_Multipoint_Geometric(q, r.in(1, 2)));
    k.d << "class " << w; PV f; f.SetLength(r.in(1, 3)); for (long i = 0; i < f.length(); i++) f[i] = rpoly(r, 3); VV ev; Vec<CM> em; PM F = rmat(r, 2, 2, 3);
    m->interpolate_vector(f, ev); k.check(f.length() == 0, "interpolate_vector of no values"); f.SetLength(1); m->t_evaluate_vector(f, ev); k.check(f.length() == 0, "t_evaluate_vector of no values");
    m->interpolate_matrix(F, em); k.check(F.NumRows() == 0 && F.NumCols() == 0, "interpolate_matrix of no values"); F.SetDims(1, 1); m->t_evaluate_matrix(F, em); k.check(F.NumRows() == 0 && F.NumCols() == 0, "t_evaluate_matrix of no values");
}
