// C05: degree, pivot and form queries
#include "common.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT

// a matrix in shifted Popov form (m <= n), or slightly damaged so that only weaker forms hold
static PM gen_form(Ctx &k, long m, long n, const VL &sh, int &what)
{
    Rng &r = k.rng; what = r.below(8);
    if (what == 0 || m > n) { what = 0; return rmatS(r, m, n, r.in(0, 6)); }
    VL cols(n); for (long i = 0; i < n; i++) cols[i] = i;
    for (long i = n - 1; i > 0; i--) std::swap(cols[i], cols[r.below(i + 1)]);
    cols.resize(m); std::sort(cols.begin(), cols.end());
    VL d(m); for (auto &x : d) x = r.in(0, 5);
    PM a; a.SetDims(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
        long w = d[i] + sh[cols[i]];                       // row degree
        long mx = w - sh[j] - (j > cols[i] ? 1 : 0);        // largest allowed degree for the pivot to be at cols[i]
        for (long t = 0; t < m; t++) if (t != i && cols[t] == j) mx = std::min(mx, d[t] - 1);
        if (j == cols[i]) { a[i][j] = rpoly(r, d[i]); SetCoeff(a[i][j], d[i], 1); }
        else a[i][j] = rpoly(r, std::min(mx, 12L) + 1);
    }
    if (what >= 3 && m > 0) {   // damage
        for (int q = 0; q < 1 + (what > 5); q++) switch (r.below(6)) {
        case 0: { long i = r.below(m); zz_p c = rnz(r); for (long j = 0; j < n; j++) a[i][j] *= c; break; }            // pivot no longer monic
        case 1: if (m > 1) { long i = r.below(m), t = r.below(m); if (i != t) std::swap(a[i], a[t]); } break;           // order
        case 2: if (m > 1) { long i = r.below(m), t = r.below(m); if (i != t) { zz_p c = rnz(r); for (long j = 0; j < n; j++) a[i][j] += c * a[t][j]; } } break;
        case 3: { long i = r.below(m), j = r.below(n); a[i][j] += rpoly(r, r.in(1, 8)); break; }
        case 4: { long i = r.below(m); for (long j = 0; j < n; j++) clear(a[i][j]); break; }
        default: { long i = r.below(m), t = r.below(m); if (i != t) a[i] = a[t]; }
        }
    }
    return a;
}
static bool eqm(const Mat<long> &a, const PM &p, const VL *sh, bool rows)
{
    if (a.NumRows() != p.NumRows() || a.NumCols() != p.NumCols()) return false;
    long mn = sh ? (sh->empty() ? 0 : *std::min_element(sh->begin(), sh->end())) : 0;
    for (long i = 0; i < p.NumRows(); i++) for (long j = 0; j < p.NumCols(); j++) { long w = !sh ? deg(p[i][j]) : IsZero(p[i][j]) ? mn - 1 : deg(p[i][j]) + (*sh)[rows ? j : i]; if (a[i][j] != w) return false; }
    return true;
}

OP("C05", forms_row, 500, 40000, 200000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long n = r.in(1, k.sz(5, 7, 12)), m = r.chance(10) ? 0 : r.in(1, r.chance(80) ? n : 8); bool zs = r.chance(30);
    VL sh = zs ? VL(n, 0) : rshift(r, n, -1, r.in(1, 8)); int what;
    PM a = gen_form(k, m, n, sh, what);
    k.d << "gen=" << what << " " << dims(a) << " shift=" << show(sh);
    VL rd, pi, pd, opi, opd; CM lm; Mat<long> dm; o_pivots(opi, opd, a, sh); long f = o_form(a, sh);
    k.tag(S("form" << f));
    k.in("a", a).in("shift", sh).out("rd", rd).out("pi", pi).out("pd", pd).out("lm", lm);
    if (zs) k.run([&]() { row_degree(rd, a); row_pivots(pi, pd, a); row_leading_matrix(lm, a); degree_matrix(dm, a); });
    else k.run([&]() { row_degree(rd, a, sh); row_pivots(pi, pd, a, sh); row_leading_matrix(lm, a, sh); degree_matrix_rowshifted(dm, a, sh); });
    k.check(rd == o_rdeg(a, sh), S("row_degree: got " << show(rd) << " expected " << show(o_rdeg(a, sh)) << " for " << show(a)));
    k.check(pi == opi && pd == opd, S("row_pivots: got " << show(pi) << show(pd) << " expected " << show(opi) << show(opd) << " for " << show(a)));
    k.check(same(lm, o_lmat(a, sh)), S("row_leading_matrix differs for " << show(a)));
    k.check(eqm(dm, a, zs ? 0 : &sh, true), "degree_matrix differs");
    bool b[5]; PolMatForm g; 
    if (zs) { b[1] = is_row_reduced(a); b[2] = is_row_weak_popov(a); b[3] = is_row_ordered_weak_popov(a); b[4] = is_row_popov(a); g = get_row_polmatform(a); }
    else { b[1] = is_row_reduced(a, sh); b[2] = is_row_weak_popov(a, sh); b[3] = is_row_ordered_weak_popov(a, sh); b[4] = is_row_popov(a, sh); g = get_row_polmatform(a, sh); }
    for (int q = 1; q <= 4; q++) { k.check(b[q] == (f >= q), S("form test " << q << " says " << b[q] << " but the strongest form is " << f << " for " << show(a))); PolMatForm pf = (PolMatForm)q; k.check((zs ? is_row_polmatform(pf, a) : is_row_polmatform(pf, a, sh)) == (f >= q), S("is_row_polmatform(" << q << ")")); }
    k.check(zs ? is_row_polmatform(NONE, a) : is_row_polmatform(NONE, a, sh), "is_row_polmatform(NONE)");
    k.check((long)g == f, S("get_row_polmatform returned " << (long)g << " instead of " << f << " for " << show(a)));
    if (m == 0) k.nontriv = false;
    k.check(amplitude(sh) == *std::max_element(sh.begin(), sh.end()) - *std::min_element(sh.begin(), sh.end()), "amplitude");
}

OP("C05", forms_col, 500, 40000, 200000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng;
    long n = r.in(1, k.sz(5, 7, 12)), m = r.chance(10) ? 0 : r.in(1, r.chance(80) ? n : 8); bool zs = r.chance(30);
    VL sh = zs ? VL(n, 0) : rshift(r, n, -1, r.in(1, 8)); int what;
    PM t = gen_form(k, m, n, sh, what), a; a.SetDims(n, m); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[j][i] = t[i][j];
    k.d << "gen=" << what << " " << dims(a) << " shift=" << show(sh);
    VL rd, pi, pd, opi, opd; CM lm; Mat<long> dm; o_pivots(opi, opd, t, sh); long f = o_form(t, sh);
    k.tag(S("form" << f));
    k.in("a", a).in("shift", sh).out("rd", rd).out("pi", pi).out("pd", pd).out("lm", lm);
    if (zs) k.run([&]() { col_degree(rd, a); col_pivots(pi, pd, a); col_leading_matrix(lm, a); degree_matrix(dm, a); });
    else k.run([&]() { col_degree(rd, a, sh); col_pivots(pi, pd, a, sh); col_leading_matrix(lm, a, sh); degree_matrix_colshifted(dm, a, sh); });
    k.check(rd == o_rdeg(t, sh), S("col_degree: got " << show(rd) << " expected " << show(o_rdeg(t, sh)) << " for " << show(a)));
    k.check(pi == opi && pd == opd, S("col_pivots: got " << show(pi) << show(pd) << " expected " << show(opi) << show(opd) << " for " << show(a)));
    CM ol = o_lmat(t, sh), olt; olt.SetDims(n, m); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) olt[j][i] = ol[i][j];
    k.check(same(lm, olt), S("col_leading_matrix differs for " << show(a)));
    k.check(eqm(dm, a, zs ? 0 : &sh, false), "degree_matrix differs");
    bool b[5]; PolMatForm g; 
    if (zs) { b[1] = is_col_reduced(a); b[2] = is_col_weak_popov(a); b[3] = is_col_ordered_weak_popov(a); b[4] = is_col_popov(a); g = get_col_polmatform(a); }
    else { b[1] = is_col_reduced(a, sh); b[2] = is_col_weak_popov(a, sh); b[3] = is_col_ordered_weak_popov(a, sh); b[4] = is_col_popov(a, sh); g = get_col_polmatform(a, sh); }
    for (int q = 1; q <= 4; q++) { k.check(b[q] == (f >= q), S("form test " << q << " says " << b[q] << " but the strongest form is " << f << " for " << show(a))); PolMatForm pf = (PolMatForm)q; k.check((zs ? is_col_polmatform(pf, a) : is_col_polmatform(pf, a, sh)) == (f >= q), S("is_col_polmatform(" << q << ")")); }
    k.check(zs ? is_col_polmatform(NONE, a) : is_col_polmatform(NONE, a, sh), "is_col_polmatform(NONE)");
    k.check((long)g == f, S("get_col_polmatform returned " << (long)g << " instead of " << f << " for " << show(a)));
    if (m == 0) k.nontriv = false;
}
OP("C05", value_forms, 200, 8000, 40000)
{
    setmod(k, K_ALL);
    Rng &r = k.rng; long n = r.in(1, k.sz(5, 7, 12)), m = r.in(1, r.chance(80) ? n : 8); bool zs = r.chance(50), col = r.chance(50); VL sh = zs ? VL(n, 0) : rshift(r, n, -1, r.in(1, 8)); int what; PM t = gen_form(k, m, n, sh, what), a = t; if (col) { a.SetDims(n, m); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[j][i] = t[i][j]; }
    k.d << (col ? "columns " : "rows ") << dims(a) << " shift=" << (zs ? S("none") : show(sh)); VL rd, opi, opd; std::pair<VL, VL> pv; CM lm, ol = o_lmat(t, sh); Mat<long> dm; o_pivots(opi, opd, t, sh); k.tag(S(col << zs)); k.in("a", a).in("shift", sh); long am = -1;
    if (!col && zs) k.run([&]() { rd = row_degree(a); pv = row_pivots(a); lm = row_leading_matrix(a); dm = degree_matrix(a); });
    else if (!col) k.run([&]() { rd = row_degree(a, sh); pv = row_pivots(a, sh); lm = row_leading_matrix(a, sh); dm = degree_matrix_rowshifted(a, sh); });
    else if (zs) k.run([&]() { rd = col_degree(a); pv = col_pivots(a); lm = col_leading_matrix(a); dm = degree_matrix(a); });
    else k.run([&]() { rd = col_degree(a, sh); pv = col_pivots(a, sh); lm = col_leading_matrix(a, sh); dm = degree_matrix_colshifted(a, sh); });
    if (col) { CM u; u.SetDims(n, m); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) u[j][i] = ol[i][j]; ol = u; }
    k.check(rd == o_rdeg(t, sh), S("degrees: got " << show(rd) << " for " << show(a))); k.check(pv.first == opi && pv.second == opd, S("pivots: got " << show(pv.first) << show(pv.second) << " expected " << show(opi) << show(opd) << " for " << show(a))); k.check(same(lm, ol), S("leading matrix differs for " << show(a))); k.check(eqm(dm, a, zs ? 0 : &sh, !col), "degree matrix differs");
    k.run([&]() { amplitude(am, sh); }); k.check(am == *std::max_element(sh.begin(), sh.end()) - *std::min_element(sh.begin(), sh.end()), "amplitude");
}
