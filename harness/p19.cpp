// C19: structured matrices with polynomial entries
#include "common.h"
#include "mat_lzz_p_extra.h"
#include "mat_lzz_pX_extra.h"
#include "structured_lzz_pX.h"
PML_CLIENT
static PM Zm(long n, long phi) { PM z; z.SetDims(n, n); for (long i = 1; i < n; i++) z[i][i - 1] = 1; if (n > 0) z[0][n - 1] += to_zz_p(phi); return z; }
static PV svec(Rng &r, long n, long len)
{
    PV v = rvec(r, n, len); int w = r.below(8);
    if (w == 0) for (long i = 0; i < n; i++) clear(v[i]);
    if (w == 1) { for (long i = 0; i < n; i++) clear(v[i]); if (n) v[r.below(n)] = rpolyS(r, len); }
    if (w == 2) for (long i = 0; i < n; i++) v[i] = rpolyS(r, len);
    if (w == 3) { long a = r.in(0, n); for (long i = a; i < n; i++) clear(v[i]); }
    if (w == 4) { long a = r.in(0, n); for (long i = 0; i < a; i++) clear(v[i]); }
    if (w == 5) for (long i = 0; i < n; i++) v[i] = rpoly(r, r.in(0, len));
    return v;
}
static PM smat(Rng &r, long m, long n, long len) { PM a; a.SetDims(m, n); bool c = r.chance(50); for (long i = 0; i < (c ? n : m); i++) { PV v = svec(r, c ? m : n, len); for (long j = 0; j < v.length(); j++) if (c) a[j][i] = v[j]; else a[i][j] = v[j]; } return a; }
static PV mv(const PM &D, const PV &v) { PV o; o.SetLength(D.NumRows()); for (long i = 0; i < D.NumRows(); i++) { clear(o[i]); for (long j = 0; j < D.NumCols(); j++) o[i] += D[i][j] * v[j]; } return o; }
static PV vm(const PV &v, const PM &D) { PV o; o.SetLength(D.NumCols()); for (long j = 0; j < D.NumCols(); j++) { clear(o[j]); for (long i = 0; i < D.NumRows(); i++) o[j] += D[i][j] * v[i]; } return o; }
static PV vtr(PV v, long s) { for (long i = 0; i < v.length(); i++) trunc(v[i], v[i], s); return v; }
template <class T> static void prep(Ctx &k, T &M, long len) { Rng &r = k.rng; while (r.chance(35)) { long d = r.in(-1, len + 3); k.d << " prepare " << d; k.tag("prepared"); k.run([&]() { M.prepare_degree(d); }); } }
template <class T> static void noprep(Ctx &, T &, long) {}
template <class T> static void uses(Ctx &k, T &M, const PM &D, long len, const std::string &nm, void (*pf)(Ctx &, T &, long))
{
    Rng &r = k.rng; long m = D.NumRows(), n = D.NumCols(); k.check(M.NumRows() == m && M.NumCols() == n, nm + ": dimensions");
    { PM X; k.out("dense", X); k.run([&]() { M.to_dense(X); }); k.clearReg(); k.check(normalized(X) && same(X, D), nm + ": to_dense is not the defined matrix"); }
    long st = r.in(2, 5);
    for (long s = 0; s < st; s++) {
        if (r.chance(15)) perturb_history(r);
        pf(k, M, len);
        bool al = r.chance(25), tr = r.chance(50), mat = r.chance(40); long t = r.chance(10) ? 0 : r.in(1, r.chance(20) ? 3 * len + 5 : len + 2); long l2 = r.chance(50) ? len : r.in(0, 2 * len); std::string wh = S((tr ? S("truncated at " << t) : std::string("full")) << (al ? ", same object" : "") << ", use " << s);
        if (!mat) {
            bool right = r.chance(50); PV v = svec(r, right ? n : m, l2), e = right ? mv(D, v) : vm(v, D), w; if (tr) e = vtr(e, t);
            auto call = [&](PV &o, const PV &i) { if (right) { if (tr) M.mul_right_trunc(o, i, t); else M.mul_right(o, i); } else { if (tr) M.mul_left_trunc(o, i, t); else M.mul_left(o, i); } };
            if (al) { k.inout("io", v); k.run([&]() { call(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { call(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": " << (right ? "right" : "left") << " product by a vector differs from the dense product (" << wh << ")"));
        } else {
            bool right = r.chance(50); long c = r.chance(10) ? 0 : r.in(1, 3); PM v = smat(r, right ? n : c, right ? c : m, l2), e = right ? rmul(D, v) : rmul(v, D), w; if (tr) e = rtrunc(e, t);
            auto call = [&](PM &o, const PM &i) { if (right) { if (tr) M.mul_right_trunc(o, i, t); else M.mul_right(o, i); } else { if (tr) M.mul_left_trunc(o, i, t); else M.mul_left(o, i); } };
            if (al) { k.inout("io", v); k.run([&]() { call(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { call(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": " << (right ? "right" : "left") << " product by a matrix differs from the dense product (" << wh << ")"));
        }
    }
}
static long rsz(Ctx &k) { Rng &r = k.rng; return r.chance(12) ? 1 : r.chance(70) ? r.in(1, 7) : r.in(1, k.sz(9, 22, 45)); }
static long rln(Ctx &k) { Rng &r = k.rng; return r.chance(10) ? 1 : r.chance(70) ? r.in(1, 9) : r.in(1, k.sz(15, 50, 120)); }
OP("C19", triangular, 60, 1500, 5000) { setmod(k, K_ALL); Rng &r = k.rng; long n = rsz(k), len = rln(k); k.d << n << " len " << len; PV a = svec(r, n, len); PM D; D.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = a[i - j]; lower_triangular_toeplitz_lzz_pX M(a); uses(k, M, D, len, "lower_triangular_toeplitz", prep<lower_triangular_toeplitz_lzz_pX>); }
OP("C19", circulant, 60, 1500, 5000) { setmod(k, K_ALL); Rng &r = k.rng; long n = rsz(k), m = rsz(k), len = rln(k); k.d << n << "x" << m << " len " << len; PV a = svec(r, m, len); PM D; D.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[((i - j - 1) % m + m) % m]; circulant_row_lzz_pX M(a, n); uses(k, M, D, len, "circulant_row", prep<circulant_row_lzz_pX>); }
OP("C19", toeplitz_like, 50, 1000, 4000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = std::min(rsz(k), 20L), n = std::min(rsz(k), 20L), len = std::min(rln(k), 40L), al = r.chance(8) ? 0 : r.in(1, 4); k.d << m << "x" << n << " len " << len << " gens " << al; PM G = smat(r, m, al, len), H = smat(r, n, al, r.chance(60) ? len : r.in(1, 2 * len));
    toeplitz_like_minus_lzz_pX M; k.in("G", G).in("H", H); k.run([&]() { M = toeplitz_like_minus_lzz_pX(G, H); }); k.clearReg(); k.check(M.NumGens() == al, "NumGens"); PM D = M.to_dense(); k.check(D.NumRows() == m && D.NumCols() == n && same(rsub(rmul(Zm(m, 0), D), rmul(D, Zm(n, 1))), rmul(G, rtransp(H))), "toeplitz_like_minus: the dense form does not satisfy its displacement equation"); uses(k, M, D, len, "toeplitz_like_minus", noprep<toeplitz_like_minus_lzz_pX>);
    bool plus = r.chance(50), alias = r.chance(25); PM A = r.chance(50) ? D : smat(r, m, n, len), P, E = plus ? rsub(rmul(Zm(m, 1), A), rmul(A, Zm(n, 0))) : rsub(rmul(Zm(m, 0), A), rmul(A, Zm(n, 1))); if (alias) { P = A; k.inout("io", P); } else k.in("A", A).out("res", P); const PM &I = alias ? P : A; k.run([&]() { if (plus) toeplitz_lzz_pX_phi_plus(P, I); else toeplitz_lzz_pX_phi_minus(P, I); }); k.check(normalized(P) && same(P, E), plus ? "toeplitz_lzz_pX_phi_plus" : "toeplitz_lzz_pX_phi_minus");
}
static PM sylv(const PV &A, const PV &B) { long da = A.length() - 1, db = B.length() - 1; PM D; D.SetDims(da + db, da + db); for (long j = 0; j < db; j++) for (long i = 0; i <= da; i++) D[i + j][j] = A[i]; for (long j = 0; j < da; j++) for (long i = 0; i <= db; i++) D[i + j][db + j] = B[i]; return D; }
OP("C19", sylvester_poly, 60, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long da = r.chance(8) ? 0 : std::min(rsz(k), 14L), db = r.chance(8) ? 0 : std::min(rsz(k), 14L), la = rln(k), lb = r.chance(50) ? la : rln(k); if (da + db == 0) da = 1; PV A = svec(r, da + 1, la), B = svec(r, db + 1, lb); while (A[da] == 0) A[da] = rpoly(r, la); while (B[db] == 0) B[db] = rpoly(r, lb); k.d << "Y-degrees " << da << "," << db << " lengths " << la << "," << lb; if (!da || !db) k.tag("constant");
    PM D = sylv(A, B), G, H; sylvester_lzz_pX M(A, B); uses(k, M, D, std::max(la, lb), "sylvester", noprep<sylvester_lzz_pX>); k.out("G", G).out("H", H); k.run([&]() { M.phi_plus_generators(G, H); }); long n = da + db; k.check(G.NumRows() == n && H.NumRows() == n && G.NumCols() == H.NumCols() && normalized(G) && normalized(H) && same(rmul(G, rtransp(H)), rsub(rmul(Zm(n, 1), D), rmul(D, Zm(n, 0)))), "sylvester phi_plus_generators: G H^t is not the displacement of the matrix");
}
OP("C19", sylvester_inverse, 60, 1200, 4000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long da = r.in(1, r.chance(70) ? 4 : k.sz(5, 10, 16)), db = r.in(1, r.chance(70) ? 4 : k.sz(5, 10, 16)), la = r.chance(60) ? r.in(1, 5) : r.in(1, k.sz(8, 20, 40)), lb = r.chance(50) ? la : r.in(1, 12), pr = r.chance(20) ? r.in(1, 2) : r.in(1, r.chance(30) ? k.sz(20, 60, 150) : 3 * la + 4);
    PV A = svec(r, da + 1, la), B = svec(r, db + 1, lb); long t = 0; PM D; bool low = r.chance(15); do { A[da] = rpoly(r, la); B[db] = rpoly(r, lb); if (low) SetCoeff(r.chance(50) ? A[da] : B[db], 0, 0); if (t) { A[0] = rpoly(r, la); B[0] = rpoly(r, lb); } if (++t > 40) throw Skip{}; if (A[da] == 0 || B[db] == 0) continue; D = sylv(A, B); } while (A[da] == 0 || B[db] == 0 || rdet(rcoeff(D, 0)) == 0);
    bool newt = r.chance(50); if (coeff(A[da], 0) == 0 || coeff(B[db], 0) == 0) k.tag("vanishing_leading"); k.d << "Y-degrees " << da << "," << db << " lengths " << la << "," << lb << " precision " << pr << (newt ? " newton" : " high precision") << (low ? " vanishing leading" : ""); k.tag(newt ? "newton" : "high_precision"); long n = da + db;
    sylvester_lzz_pX M(A, B); toeplitz_like_minus_lzz_pX I; k.run([&]() { if (newt) M.newton_inv_trunc(I, pr); else M.high_precision_inv_trunc(I, pr); }); PM X = rtrunc(I.to_dense(), pr); k.check(X.NumRows() == n && X.NumCols() == n && same(rtrunc(rmul(D, X), pr), rident(n)), "truncated inverse of the Sylvester matrix is wrong");
    PV b = rvec(r, n, pr), x = I.mul_right_trunc(b, pr); k.check(same(vtr(mv(D, x), pr), b), "product by the truncated inverse is not the series solution"); PV y = I.mul_left_trunc(b, pr); k.check(same(vtr(vm(y, D), pr), b), "left product by the truncated inverse is not the series solution");
}
template <class T> static void empty_object(Ctx &k, const char *nm)
{
    void *mem = ::operator new(sizeof(T)); memset(mem, (int)k.rng.in(1, 255), sizeof(T)); asm volatile("" : : "r"(mem) : "memory");
    T *o = new (mem) T(); k.tag(nm); struct G { T *o; void *m; ~G() { o->~T(); ::operator delete(m); } } g{o, mem}; k.check(o->NumRows() == 0 && o->NumCols() == 0, S("default-constructed " << nm << " is " << o->NumRows() << "x" << o->NumCols() << " instead of empty"));
}
#define EMPTY(T) empty_object<T>(k, #T)
OP("C19", defaults, 4, 20, 40) { setmod(k, K_ALL); k.d << "default-constructed objects"; EMPTY(lower_triangular_toeplitz_lzz_pX); EMPTY(circulant_row_lzz_pX); EMPTY(toeplitz_like_minus_lzz_pX); EMPTY(sylvester_lzz_pX); }
