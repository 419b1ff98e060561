#include "common.h"
#include <NTL/ZZ.h>
#include <NTL/lzz_pXFactoring.h>

std::vector<Op> &registry() { static std::vector<Op> r; return r; }

void (*before_run)(Ctx &) = 0;
void Ctx::run(const std::function<void()> &f)
{
    calls++;
    if (before_run) before_run(*this);
    if (mode != M_PURE) { f(); clearReg(); return; }
    long p0 = zz_p::modulus();
    ZZ sd; conv(sd, (long)(rng.next() >> 4));
    SetSeed(sd); undef = false;
    f();
    bool u0 = undef; undef = false;
    checks++;
    if (zz_p::modulus() != p0) throw Fail{S("modulus changed by the call: " << p0 << " -> " << zz_p::modulus())};
    for (auto &v : verify) { checks++; v(); }
    for (auto &v : save) v();
    perturb_history(rng);
    for (auto &v : restore) v();
    for (auto &v : dirty) v();
    SetSeed(sd);
    f();
    checks++;
    if (zz_p::modulus() != p0) throw Fail{S("modulus changed by the repeated call: " << p0 << " -> " << zz_p::modulus())};
    for (auto &v : verify) { checks++; v(); }
    checks++;
    if (u0 != undef) throw Fail{"different verdict on repetition"};
    if (!undef) for (auto &v : cmp) { checks++; v(); }
    clearReg();
}

static const long tinyp[] = {2, 3, 5, 7, 11, 13};
static const long ufftp[] = {998244353, 786433, 7340033, 5767169, 2113929217, 469762049, 1004535809, 23068673, 2013265921, 4179340454199820289L > NTL_SP_BOUND ? 1811939329 : 4179340454199820289L};

bool twist = false;
long setmod(Ctx &k, int kinds)
{
    Rng &r = k.rng;
    std::vector<int> ks;
    for (int b = 1; b <= 32; b <<= 1) if (kinds & b) ks.push_back(b);
    int kd = r.pick(ks);
    long p = 0;
    switch (kd) {
    case K_FFT: zz_p::FFTInit((r.below(3) + twist) % 3); p = zz_p::modulus(); k.d << "p=FFT:" << p << " "; return p;
    case K_UFFT: { p = ufftp[(r.below(10) + twist) % 10]; zz_p::UserFFTInit(p); k.d << "p=UFFT:" << p << " "; return p; }
    case K_BIG: { long b = r.in(50, 60); long lo = 1L << (b - 1); p = NextPrime(lo + r.below(lo - lo / 8)); break; }
    case K_MID: { long b = r.in(20, 40); long lo = 1L << (b - 1); p = NextPrime(lo + r.below(lo - lo / 8)); break; }
    case K_SMALL: { long b = r.in(5, 16); long lo = 1L << (b - 1); p = NextPrime(lo + r.below(lo - lo / 8)); break; }
    default: p = tinyp[(r.below(6) + twist) % 6];
    }
    if (twist && kd != K_TINY) p = NextPrime(p + 1);
    zz_p::init(p);
    k.d << "p=" << p << " ";
    return p;
}
void setmod_p(long p) { zz_p::init(p); }

zz_p rc(Rng &r) { return to_zz_p((long)(r.next() % (uint64_t)zz_p::modulus())); }
zz_p rnz(Rng &r) { return to_zz_p(1 + (long)(r.next() % (uint64_t)(zz_p::modulus() - 1))); }
zz_pX rpoly(Rng &r, long len)
{
    zz_pX f; if (len <= 0) return f;
    f.rep.SetLength(len);
    for (long i = 0; i < len; i++) f.rep[i] = rc(r);
    f.normalize();
    return f;
}
zz_pX rpolyS(Rng &r, long len)
{
    if (len <= 0) return zz_pX();
    switch (r.below(12)) {
    case 0: return zz_pX();
    case 1: { zz_pX f; SetCoeff(f, len - 1, rnz(r)); return f; }
    case 2: { zz_pX f; SetCoeff(f, 0, rnz(r)); return f; }
    case 3: { zz_pX f; SetCoeff(f, r.below(len), rnz(r)); return f; }
    case 4: return rpoly(r, r.in(0, len));
    case 5: { zz_pX f = rpoly(r, len); zz_pX g; g.rep.SetLength(f.rep.length()); for (long i = 0; i < f.rep.length(); i++) if (r.chance(30)) g.rep[i] = f.rep[i]; g.normalize(); return g; }
    case 6: { zz_pX f; f.rep.SetLength(len); for (long i = 0; i < len; i++) f.rep[i] = to_zz_p(zz_p::modulus() - 1); return f; } // all coefficients p-1
    case 7: { zz_pX f = rpoly(r, len); SetCoeff(f, len - 1, rnz(r)); long z = r.below(len); zz_pX t; trunc(t, f, z); return f - t; } // low part zero
    default: { zz_pX f = rpoly(r, len); SetCoeff(f, len - 1, rnz(r)); return f; }
    }
}
PV rvec(Rng &r, long n, long len) { PV v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rpoly(r, len); return v; }
PM rmat(Rng &r, long m, long n, long len)
{
    PM a; a.SetDims(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = rpoly(r, len);
    return a;
}
PM rmatS(Rng &r, long m, long n, long len)
{
    PM a; a.SetDims(m, n);
    int pat = r.below(9);
    VL rd(m, len), cd(n, len);
    if (pat == 1) for (auto &x : rd) x = r.in(0, len);
    if (pat == 2) for (auto &x : cd) x = r.in(0, len);
    if (pat == 3) { for (auto &x : rd) x = r.in(0, len); for (auto &x : cd) x = r.in(0, len); }
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
        long l = std::min(rd[i], cd[j]);
        if (pat == 4) a[i][j] = rpolyS(r, l);
        else if (pat == 5) { if (r.chance(35)) a[i][j] = rpolyS(r, l); }
        else a[i][j] = rpoly(r, l);
    }
    if (pat == 6 && m > 0) { long i = r.below(m); for (long j = 0; j < n; j++) a[i][j] = 0; }
    if (pat == 7 && n > 0) { long j = r.below(n); for (long i = 0; i < m; i++) a[i][j] = 0; }
    if (pat == 8 && r.chance(25)) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = 0;
    return a;
}
CV rcv(Rng &r, long n) { CV v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rc(r); return v; }
CM rcm(Rng &r, long m, long n) { CM a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = rc(r); return a; }
CM rcm_rank(Rng &r, long m, long n, long rk) { return rcmul(rcm(r, m, rk), rcm(r, rk, n)); }
CM rcm_inv(Rng &r, long n)
{
    if (n == 0) { CM a; a.SetDims(0, 0); return a; }
    for (;;) { CM a = rcm(r, n, n); if (rrank(a) == n) return a; }
}
PM rmat_unimod(Rng &r, long n, long deg)
{
    PM u = rident(n);
    for (int t = 0; t < 2 * n; t++) {
        long i = r.below(n), j = r.below(n); if (i == j) continue;
        zz_pX f = rpoly(r, r.in(1, deg + 1));
        for (long c = 0; c < n; c++) u[i][c] += f * u[j][c];
    }
    return u;
}

bool normalized(const zz_pX &f)
{
    long n = f.rep.length(); long p = zz_p::modulus();
    for (long i = 0; i < n; i++) { long v = rep(f.rep[i]); if (v < 0 || v >= p) return false; }
    return n == 0 || rep(f.rep[n - 1]) != 0;
}
bool normalized(const PV &v) { for (long i = 0; i < v.length(); i++) if (!normalized(v[i])) return false; return true; }
bool normalized(const PM &m) { for (long i = 0; i < m.NumRows(); i++) { if (m[i].length() != m.NumCols()) return false; if (!normalized(m[i])) return false; } return true; }
bool normalized(const CV &m) { long p = zz_p::modulus(); for (long i = 0; i < m.length(); i++) { long v = rep(m[i]); if (v < 0 || v >= p) return false; } return true; }
bool normalized(const CM &m) { for (long i = 0; i < m.NumRows(); i++) { if (m[i].length() != m.NumCols() || !normalized(m[i])) return false; } return true; }

void junk(Rng &r, zz_p &x) { x = rc(r); }
void junk(Rng &r, zz_pX &x) { x = rpoly(r, r.in(0, 12)); }
void junk(Rng &r, PV &x) { x.kill(); x.SetLength(r.in(0, 5)); for (long i = 0; i < x.length(); i++) x[i] = rpoly(r, r.in(0, 9)); }
void junk(Rng &r, PM &x) { long m = r.in(0, 5), n = r.in(0, 5); x.kill(); x.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) x[i][j] = rpoly(r, r.in(0, 9)); }
void junk(Rng &r, CV &x) { x = rcv(r, r.in(0, 6)); }
void junk(Rng &r, CM &x) { x.kill(); x = rcm(r, r.in(0, 5), r.in(0, 5)); }
void junk(Rng &r, VL &x) { x.assign(r.in(0, 5), 0); for (auto &v : x) v = r.in(-3, 9); }
void junk(Rng &r, long &x) { x = r.in(-5, 50); }
void junk(Rng &r, Vec<CM> &x) { x.kill(); x.SetLength(r.in(0, 4)); long m = r.in(0, 4), n = r.in(0, 4); for (long i = 0; i < x.length(); i++) x[i] = rcm(r, m, n); }
void junk(Rng &r, Vec<CV> &x) { x.kill(); x.SetLength(r.in(0, 4)); for (long i = 0; i < x.length(); i++) x[i] = rcv(r, r.in(0, 4)); }

long rdeg(const PV &m) { long d = -1; for (long i = 0; i < m.length(); i++) d = std::max(d, deg(m[i])); return d; }
long rdeg(const PM &m) { long d = -1; for (long i = 0; i < m.NumRows(); i++) for (long j = 0; j < m.NumCols(); j++) d = std::max(d, deg(m[i][j])); return d; }
PM rmul(const PM &a, const PM &b)
{
    PM c; c.SetDims(a.NumRows(), b.NumCols()); zz_pX t;
    for (long i = 0; i < a.NumRows(); i++) for (long k = 0; k < a.NumCols(); k++) {
        if (IsZero(a[i][k])) continue;
        for (long j = 0; j < b.NumCols(); j++) { mul(t, a[i][k], b[k][j]); add(c[i][j], c[i][j], t); }
    }
    return c;
}
static PM cc(const CM &a) { PM b; b.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) conv(b[i][j], a[i][j]); return b; }
PM rmul(const CM &a, const PM &b) { return rmul(cc(a), b); }
PM rmul(const PM &a, const CM &b) { return rmul(a, cc(b)); }
PM radd(const PM &a, const PM &b) { PM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) NTL::add(c[i][j], a[i][j], b[i][j]); return c; }
PM rsub(const PM &a, const PM &b) { PM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) NTL::sub(c[i][j], a[i][j], b[i][j]); return c; }
PM rslice(const PM &a, long lo, long len)
{
    PM c; c.SetDims(a.NumRows(), a.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) {
        zz_pX &f = c[i][j];
        for (long t = 0; t < len; t++) if (lo + t >= 0 && lo + t <= deg(a[i][j])) SetCoeff(f, t, a[i][j].rep[lo + t]);
    }
    return c;
}
PM rtrunc(const PM &a, long n) { return rslice(a, 0, n); }
PM rtransp(const PM &a) { PM c; c.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j][i] = a[i][j]; return c; }
PM rident(long n) { PM c; c.SetDims(n, n); for (long i = 0; i < n; i++) conv(c[i][i], 1L); return c; }
PM rzero(long m, long n) { PM c; c.SetDims(m, n); return c; }
CM reval(const PM &a, const zz_p &x) { CM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { zz_p v; v = 0; for (long t = deg(a[i][j]); t >= 0; t--) v = v * x + a[i][j].rep[t]; c[i][j] = v; } return c; }
CM rcoeff(const PM &a, long d) { CM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (d >= 0 && d <= deg(a[i][j])) c[i][j] = a[i][j].rep[d]; return c; }
CM rcmul(const CM &a, const CM &b)
{
    CM c; c.SetDims(a.NumRows(), b.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long k = 0; k < a.NumCols(); k++) { zz_p t = a[i][k]; if (IsZero(t)) continue; for (long j = 0; j < b.NumCols(); j++) c[i][j] += t * b[k][j]; }
    return c;
}
CV rcmulv(const CM &a, const CV &v) { CV c; c.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i] += a[i][j] * v[j]; return c; }
CV rvmulc(const CV &v, const CM &a) { CV c; c.SetLength(a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j] += v[i] * a[i][j]; return c; }
bool rIsZero(const PM &a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) return false; return true; }
static long elim(CM &a, zz_p &det)
{
    long m = a.NumRows(), n = a.NumCols(), r = 0; det = 1;
    for (long c = 0; c < n && r < m; c++) {
        long pv = -1; for (long i = r; i < m; i++) if (!IsZero(a[i][c])) { pv = i; break; }
        if (pv < 0) { det = 0; continue; }
        if (pv != r) { swap(a[pv], a[r]); det = -det; }
        det *= a[r][c];
        zz_p iv = 1 / a[r][c];
        for (long i = r + 1; i < m; i++) { zz_p f = a[i][c] * iv; if (IsZero(f)) continue; for (long j = c; j < n; j++) a[i][j] -= f * a[r][j]; }
        r++;
    }
    if (r < m) det = 0;
    return r;
}
long rrank(const CM &a) { CM b = a; zz_p d; return elim(b, d); }
zz_p rdet(const CM &a) { CM b = a; zz_p d; elim(b, d); return d; }
static long bareiss(PM &a, zz_pX &det)
{
    long m = a.NumRows(), n = a.NumCols(), r = 0; zz_pX prev; conv(prev, 1L); int sg = 1;
    for (long c = 0; c < n && r < m; c++) {
        long pv = -1; for (long i = r; i < m; i++) if (!IsZero(a[i][c]) && (pv < 0 || deg(a[i][c]) < deg(a[pv][c]))) pv = i;
        if (pv < 0) continue;
        if (pv != r) { swap(a[pv], a[r]); sg = -sg; }
        for (long i = r + 1; i < m; i++) {
            for (long j = c + 1; j < n; j++) { zz_pX t = a[r][c] * a[i][j] - a[i][c] * a[r][j]; if (!divide(a[i][j], t, prev)) { fprintf(stderr, "bareiss oracle failure\n"); exit(99); } }
            a[i][c] = 0;
        }
        prev = a[r][c];
        r++;
    }
    if (m == n && r == m) { det = (m == 0) ? prev : a[m - 1][m - 1]; if (sg < 0) det = -det; } else det = 0;
    return r;
}
zz_pX rdet(const PM &a) { PM b = a; zz_pX d; bareiss(b, d); return d; }
long rrank(const PM &a) { PM b = a; zz_pX d; return bareiss(b, d); }
bool same(const PM &a, const PM &b) { if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (a[i][j] != b[i][j]) return false; return true; }
bool same(const PV &a, const PV &b) { return a == b; }
bool same(const CM &a, const CM &b) { return a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols() && (a.NumRows() == 0 || a.NumCols() == 0 || a == b); }
bool same(const CV &a, const CV &b) { return a == b; }
bool freivalds(Rng &r, const PM &a, const PM &b, const PM &c, int reps)
{
    if (a.NumCols() != b.NumRows() || c.NumRows() != a.NumRows() || c.NumCols() != b.NumCols()) return false;
    while (reps-- > 0) {
        zz_p x = rc(r); CV v = rcv(r, b.NumCols());
        CV l = rcmulv(reval(a, x), rcmulv(reval(b, x), v)), q = rcmulv(reval(c, x), v);
        if (l != q) return false;
    }
    return true;
}
std::string dims(const PM &a) { return S(a.NumRows() << "x" << a.NumCols() << ",deg" << rdeg(a)); }
std::string show(const PM &a) { std::ostringstream o; o << dims(a) << " "; o << a; std::string s = o.str(); return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
std::string show(const VL &a) { std::ostringstream o; o << "("; for (size_t i = 0; i < a.size(); i++) o << (i ? "," : "") << a[i]; o << ")"; return o.str(); }

void perturb_history(Rng &r)
{
    zz_pContext save; save.save();
    int w = r.below(4);
    if (w == 0) zz_p::FFTInit(r.below(3));
    else if (w == 1) zz_p::UserFFTInit(12289);
    else if (w == 2) zz_p::init(NextPrime(1000 + r.below(1000000)));
    else zz_p::init(NextPrime((1L << 55) + r.below(1L << 54)));
    zz_pX a = rpoly(r, 90), b = rpoly(r, 80), c; mul(c, a, b);
    CM m = rcm(r, 4, 4); CM q; mul(q, m, m);
    extern void perturb_library(Rng &);
    perturb_library(r);
    save.restore();
}

// ---------------------------------------------------------------- reduced forms
VL o_rdeg(const PM &a, const VL &sh)
{
    VL r(a.NumRows()); long mn = sh.empty() ? 0 : *std::min_element(sh.begin(), sh.end());
    for (long i = 0; i < a.NumRows(); i++) { r[i] = mn - 1; for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) r[i] = std::max(r[i], deg(a[i][j]) + sh[j]); }
    return r;
}
void o_pivots(VL &ind, VL &dg, const PM &a, const VL &sh)
{
    ind.assign(a.NumRows(), -1); dg.assign(a.NumRows(), -1);
    for (long i = 0; i < a.NumRows(); i++) {
        bool any = false; long best = 0;
        for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) { long d = deg(a[i][j]) + sh[j]; if (!any || d >= best) { any = true; best = d; ind[i] = j; dg[i] = deg(a[i][j]); } }
    }
}
CM o_lmat(const PM &a, const VL &sh)
{
    VL rd = o_rdeg(a, sh); CM l; l.SetDims(a.NumRows(), a.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { long e = rd[i] - sh[j]; if (e >= 0 && e < a[i][j].rep.length()) l[i][j] = a[i][j].rep[e]; }
    return l;
}
long o_form(const PM &a, const VL &sh)
{
    long m = a.NumRows();
    for (long i = 0; i < m; i++) { bool z = true; for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) z = false; if (z) return 0; }
    if (rrank(o_lmat(a, sh)) < m) return 0;
    VL ind, dg; o_pivots(ind, dg, a, sh);
    VL s = ind; std::sort(s.begin(), s.end());
    for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) return 1;
    if (s != ind) return 2;
    for (long i = 0; i < m; i++) {
        if (!IsOne(LeadCoeff(a[i][ind[i]]))) return 3;
        for (long t = 0; t < m; t++) if (t != i && deg(a[t][ind[i]]) >= dg[i]) return 3;
    }
    return 4;
}
PM o_popov(const PM &owp, const VL &sh)
{
    long m = owp.NumRows(); PM a = owp; VL ind, d; o_pivots(ind, d, a, sh);
    for (long i = 0; i < m; i++) { zz_p c = inv(LeadCoeff(a[i][i])); for (long j = 0; j < m; j++) a[i][j] *= c; }
    // term-over-position reduction of each row by the others
    for (long i = 0; i < m; i++) for (;;) {
        long bj = -1, bs = 0;
        for (long j = 0; j < m; j++) if (j != i && !IsZero(a[i][j]) && deg(a[i][j]) >= d[j]) { long w = deg(a[i][j]) + sh[j]; if (bj < 0 || w >= bs) { bj = j; bs = w; } }
        if (bj < 0) break;
        zz_pX t; SetCoeff(t, deg(a[i][bj]) - d[bj], LeadCoeff(a[i][bj]));
        for (long j = 0; j < m; j++) a[i][j] -= t * a[bj][j];
    }
    return a;
}
static long pick_pivot(const CV &res, const VL &rd)
{
    long b = -1; for (long i = 0; i < res.length(); i++) if (!IsZero(res[i]) && (b < 0 || rd[i] < rd[b])) b = i;
    return b;
}
MinBasis o_approx(const PM &F, const VL &order, const VL &sh, bool wantP)
{
    long m = F.NumRows(), n = F.NumCols(); MinBasis B; B.codim = 0; VL rd = sh; B.delta.assign(m, 0); if (wantP) B.P = rident(m);
    std::vector<std::vector<std::vector<zz_p>>> R(m, std::vector<std::vector<zz_p>>(n));
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { R[i][j].assign(order[j], to_zz_p(0)); for (long t = 0; t < order[j] && t < F[i][j].rep.length(); t++) R[i][j][t] = F[i][j].rep[t]; }
    for (long j = 0; j < n; j++) for (long t = 0; t < order[j]; t++) {
        CV res; res.SetLength(m); for (long i = 0; i < m; i++) res[i] = R[i][j][t];
        long pv = pick_pivot(res, rd); if (pv < 0) continue;
        zz_p ip = inv(res[pv]);
        for (long i = 0; i < m; i++) if (i != pv && !IsZero(res[i])) {
            zz_p c = res[i] * ip;
            for (long jj = j; jj < n; jj++) for (long u = (jj == j ? t : 0); u < order[jj]; u++) R[i][jj][u] -= c * R[pv][jj][u];
            if (wantP) for (long q = 0; q < m; q++) B.P[i][q] -= c * B.P[pv][q];
        }
        for (long jj = j; jj < n; jj++) { auto &v = R[pv][jj]; if (!v.empty()) { for (long u = order[jj] - 1; u > 0; u--) v[u] = v[u - 1]; v[0] = to_zz_p(0); } }
        if (wantP) for (long q = 0; q < m; q++) B.P[pv][q] <<= 1;
        rd[pv]++; B.delta[pv]++; B.codim++;
    }
    return B;
}
MinBasis o_interp(const Vec<CM> &ev, const CV &pts, const VL &sh, bool wantP)
{
    long m = sh.size(), n = ev.length() ? ev[0].NumCols() : 0, N = pts.length(); MinBasis B; B.codim = 0; VL rd = sh; B.delta.assign(m, 0); if (wantP) B.P = rident(m);
    std::vector<CM> R; for (long k = 0; k < N; k++) R.push_back(ev[k]);
    for (long k = 0; k < N; k++) for (long j = 0; j < n; j++) {
        CV res; res.SetLength(m); for (long i = 0; i < m; i++) res[i] = R[k][i][j];
        long pv = pick_pivot(res, rd); if (pv < 0) continue;
        zz_p ip = inv(res[pv]);
        for (long i = 0; i < m; i++) if (i != pv && !IsZero(res[i])) {
            zz_p c = res[i] * ip;
            for (long kk = k; kk < N; kk++) for (long jj = 0; jj < n; jj++) R[kk][i][jj] -= c * R[kk][pv][jj];
            if (wantP) for (long q = 0; q < m; q++) B.P[i][q] -= c * B.P[pv][q];
        }
        for (long kk = k; kk < N; kk++) { zz_p f = pts[kk] - pts[k]; for (long jj = 0; jj < n; jj++) R[kk][pv][jj] *= f; }
        if (wantP) { zz_pX f; SetCoeff(f, 1, 1); SetCoeff(f, 0, -pts[k]); for (long q = 0; q < m; q++) B.P[pv][q] *= f; }
        rd[pv]++; B.delta[pv]++; B.codim++;
    }
    return B;
}
VL rshift(Rng &r, long n, int kind, long sc)
{
    VL s(n, 0); if (kind < 0) kind = r.below(9);
    switch (kind) {
    case 0: break;
    case 1: for (auto &x : s) x = r.in(0, 3); break;
    case 2: for (long i = 0; i < n; i++) s[i] = i; break;
    case 3: for (long i = 0; i < n; i++) s[i] = n - 1 - i; break;
    case 4: for (long i = 0; i < n; i++) s[i] = i * sc; break;
    case 5: for (long i = 0; i < n; i++) s[i] = (n - 1 - i) * sc; break;
    case 6: for (long i = 0; i < n; i++) s[i] = i < n / 2 ? 0 : sc; break;
    case 7: for (auto &x : s) x = r.in(-sc, sc); break;
    default: { long c = r.in(-5, 5); for (auto &x : s) x = c + r.in(0, 1) * r.in(0, sc); }
    }
    return s;
}
// input matrices: generic, structured, low rank, with dependent rows modulo a power of x, columns of high valuation
PM gen_bas(Ctx &k, long m, long n, long len)
{
    Rng &r = k.rng; int w = r.below(10);
    PM F;
    switch (w) {
    case 0: case 1: case 2: F = rmat(r, m, n, len); break;
    case 3: case 4: F = rmatS(r, m, n, len); break;
    case 5: { long q = r.in(0, std::max(0L, std::min(m, n) - 1)); if (q == 0 || len < 1) { F = rzero(m, n); break; } PM a = rmat(r, m, q, (len + 1) / 2), b = rmat(r, q, n, (len + 1) / 2); F = rmul(a, b); break; }
    case 6: F = rmat(r, m, n, len); for (long j = 0; j < n; j++) if (r.chance(50)) { long v = r.in(1, std::max(1L, len / 2)); for (long i = 0; i < m; i++) F[i][j] <<= v; } break;
    case 7: { F = rmat(r, m, n, len); for (long i = 1; i < m; i++) if (r.chance(50)) { long t = r.below(i), v = r.in(0, len); for (long j = 0; j < n; j++) { zz_pX e = rpoly(r, 2); e <<= v; F[i][j] = F[t][j] + e; } } break; }
    case 8: { CM c = rcm_rank(r, m, n, r.in(0, std::min(m, n))); F = rmat(r, m, n, len); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) SetCoeff(F[i][j], 0, c[i][j]); break; }
    default: { F = rzero(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (r.chance(50)) SetCoeff(F[i][j], r.below(std::max(1L, len)), rc(r)); }
    }
    k.tag(S("gen" << w));
    return F;
}

bool crt_edge(Rng &r, CV &u, CV &v, long n)
{
    long p = zz_p::modulus(), q[3];
    if (n < 2 || p < (1L << 31)) return false;
    { zz_pPush push; for (int i = 0; i < 3; i++) { zz_p::FFTInit(i); q[i] = zz_p::modulus(); } }
    int w = r.below(8);
    ZZ Q = w < 6 ? ZZ(q[w % 3]) : ZZ(q[w - 6]) * ZZ(q[w == 6 ? 1 : 2]), s(0);
    u.SetLength(n); v.SetLength(n);
    for (long j = 2; j < n; j++) { u[j] = rc(r); v[j] = rc(r); s += ZZ(rep(u[j])) * ZZ(rep(v[j])); }
    ZZ t = (s + Q - 1) / Q; if (t == 0) t = 1; if (w < 3 && n == 2 && p > (1L << 40)) t += r.below(5);
    ZZ rest = Q * t - s; long a = p - 1 - r.below(p / 2), b = 0, c = 0;
    if (w < 6 && r.chance(30)) a = (1L << 30) + r.below(1L << 29);
    if (rest / a >= p) a = p - 1 - r.below(1000);
    if (rest / a >= p) return false;
    conv(b, rest / a); conv(c, rest % a);
    u[0] = to_zz_p(a); v[0] = to_zz_p(b); u[1] = to_zz_p(1); v[1] = to_zz_p(c);
    if (r.chance(50)) { std::swap(u, v); }
    return true;
}
