// C17: structured matrices over the field act as their dense form
#include "common.h"
#include "mat_lzz_p_extra.h"
#include "structured_lzz_p.h"
PML_CLIENT
static CM Zm(long n, long phi) { CM z; z.SetDims(n, n); for (long i = 1; i < n; i++) z[i][i - 1] = 1; if (n > 0) z[0][n - 1] += to_zz_p(phi); return z; }
static CM tr(const CM &a) { CM b; b.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) b[j][i] = a[i][j]; return b; }
static CM csub(const CM &a, const CM &b) { CM c; c.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = a[i][j] - b[i][j]; return c; }
// sparse, constant, one-hot, zero or dense vectors
static CV svec(Rng &r, long n)
{
    CV v = rcv(r, n); int w = r.below(8);
    if (w == 0) for (long i = 0; i < n; i++) v[i] = 0;
    if (w == 1) { for (long i = 0; i < n; i++) v[i] = 0; if (n) v[r.below(n)] = rnz(r); }
    if (w == 2) for (long i = 0; i < n; i++) if (r.chance(70)) v[i] = 0;
    if (w == 3) { long a = r.in(0, n); for (long i = a; i < n; i++) v[i] = 0; }
    if (w == 4) { long a = r.in(0, n); for (long i = 0; i < a; i++) v[i] = 0; }
    return v;
}
static CM smat(Rng &r, long m, long n) { CM a; a.SetDims(m, n); bool bycol = r.chance(50); for (long i = 0; i < (bycol ? n : m); i++) { CV v = svec(r, bycol ? m : n); for (long j = 0; j < v.length(); j++) if (bycol) a[j][i] = v[j]; else a[i][j] = v[j]; } return a; }
static long rsz(Ctx &k) { Rng &r = k.rng; return r.chance(12) ? 1 : r.chance(60) ? r.in(1, 9) : r.in(1, r.chance(25) ? k.sz(20, 120, 300) : k.sz(15, 40, 80)); }
// previous contents of an output: often of the very dimensions of the result
static void pre(Ctx &k, CV &w, long n) { Rng &r = k.rng; if (r.chance(40)) w = rcv(r, r.chance(70) ? n : r.in(0, 2 * n + 2)); }
static void pre(Ctx &k, CM &w, long m, long n) { Rng &r = k.rng; if (r.chance(40)) w = r.chance(70) ? rcm(r, m, n) : rcm(r, r.in(0, m + 2), r.in(0, n + 2)); }
static void uses(Ctx &k, const structured_lzz_p &M, const CM &D, const std::string &nm)
{
    Rng &r = k.rng; long m = D.NumRows(), n = D.NumCols();
    k.check(M.NumRows() == m && M.NumCols() == n, S(nm << ": dimensions " << M.NumRows() << "x" << M.NumCols() << " instead of " << m << "x" << n));
    { CM X; pre(k, X, m, n); k.out("dense", X); k.run([&]() { M.to_dense(X); }); k.check(same(X, D), nm + ": to_dense is not the defined matrix"); if (r.chance(20)) k.check(same(M.to_dense(), D), nm + ": to_dense() is not the defined matrix"); }
    long st = r.in(2, 5);
    for (long s = 0; s < st; s++) {
        if (r.chance(15)) perturb_history(r);
        bool alias = r.chance(25); if (alias) k.tag("alias");
        switch (r.below(4)) {
        case 0: { CV v = svec(r, n), e = rcmulv(D, v), w; pre(k, w, m); if (alias) { k.inout("io", v); k.run([&]() { M.mul_right(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { M.mul_right(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": mul_right(vector) differs from the dense product" << (alias ? " (same object)" : "") << " use " << s)); break; }
        case 1: { CV v = svec(r, m), e = rvmulc(v, D), w; pre(k, w, n); if (alias) { k.inout("io", v); k.run([&]() { M.mul_left(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { M.mul_left(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": mul_left(vector) differs from the dense product" << (alias ? " (same object)" : "") << " use " << s)); break; }
        case 2: { long c = r.chance(10) ? 0 : r.in(1, 5); CM v = smat(r, n, c), e = rcmul(D, v), w; pre(k, w, m, c); if (alias) { k.inout("io", v); k.run([&]() { M.mul_right(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { M.mul_right(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": mul_right(matrix with " << c << " columns) differs from the dense product" << (alias ? " (same object)" : "") << " use " << s)); break; }
        default: { long c = r.chance(10) ? 0 : r.in(1, 5); CM v = smat(r, c, m), e = rcmul(v, D), w; pre(k, w, c, n); if (alias) { k.inout("io", v); k.run([&]() { M.mul_left(v, v); }); w = v; } else { k.in("in", v).out("out", w); k.run([&]() { M.mul_left(w, v); }); } k.clearReg(); k.check(normalized(w) && same(w, e), S(nm << ": mul_left(matrix with " << c << " rows) differs from the dense product" << (alias ? " (same object)" : "") << " use " << s)); }
        }
    }
}
static int r_pick(Rng &r) { return r.chance(85) ? K_FFT | K_UFFT | K_SMALL | K_TINY : K_ALL; }
OP("C17", hankel_toeplitz, 80, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = rsz(k), m = rsz(k); k.d << n << "x" << m; CV a = svec(r, n + m - 1); CM D; D.SetDims(n, m);
    if (r.chance(50)) { k.tag("hankel"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[n + m - 2 - i - j]; k.in("data", a); hankel_lzz_p M; k.run([&]() { M = hankel_lzz_p(a, n, m); }); k.clearReg(); for (long t = 0; t < 10; t++) { long i = r.below(n), j = r.below(m); k.check(M(i, j) == D[i][j], "hankel operator()"); } uses(k, M, D, "hankel"); }
    else { k.tag("toeplitz"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[m - 1 + i - j]; k.in("data", a); toeplitz_lzz_p M; k.run([&]() { M = toeplitz_lzz_p(a, n, m); }); k.clearReg(); for (long t = 0; t < 10; t++) { long i = r.below(n), j = r.below(m); k.check(M(i, j) == D[i][j], "toeplitz operator()"); } uses(k, M, D, "toeplitz"); }
}
// both dimensions beyond half the FFT crossover of the modulus: stored transforms are used
OP("C17", large_fft, 6, 60, 400)
{
    setmod(k, r_pick(k.rng)); Rng &r = k.rng; long h = NTL_zz_pX_MUL_CROSSOVER / 2, n = h + r.in(-3, r.chance(70) ? 10 : 90), m = h + r.in(-3, r.chance(70) ? 10 : 90); if (r.chance(15)) m = r.in(1, n); if (r.chance(15)) n = r.in(1, m); k.d << n << "x" << m; CV a = svec(r, n + m - 1); CM D; D.SetDims(n, m); int w = r.below(3);
    if (w == 0) { k.tag("hankel"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[n + m - 2 - i - j]; hankel_lzz_p M(a, n, m); uses(k, M, D, "hankel"); }
    else if (w == 1) { k.tag("toeplitz"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[m - 1 + i - j]; toeplitz_lzz_p M(a, n, m); uses(k, M, D, "toeplitz"); }
    else { k.tag("lower_triangular"); CV b = svec(r, n); D.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) D[i][j] = j <= i ? b[i - j] : to_zz_p(0); lower_triangular_toeplitz_lzz_p M(b); uses(k, M, D, "lower_triangular_toeplitz"); }
}
// sizes around the choices of the products by matrices (dense form, direct, stored transform) and long vectors
OP("C17", product_regions, 8, 160, 800)
{
    setmod(k, K_ALL); Rng &r = k.rng; bool vec = r.chance(45); long n, m, c; if (vec) { n = r.in(60, k.sz(150, 700, 1500)); m = r.chance(40) ? r.in(1, 60) : r.in(60, k.sz(150, 700, 1500)); c = r.in(1, 2); if (r.chance(30)) std::swap(n, m); } else { n = r.in(2, k.sz(30, 130, 340)); m = r.chance(60) ? r.in((n + 1) / 2, 2 * n) : r.in(1, 3 * n); c = r.in(1, std::max(2L, std::min(n, m) / 2)); if (r.chance(10)) m = c = n; }
    CV a = svec(r, n + m - 1); CM D; D.SetDims(n, m); int w = r.below(4), op = r.below(4); k.d << n << "x" << m << " kind " << w << " product " << op << " by " << c; k.tag(S("k" << w << "o" << op << (std::min(m, n) >= std::max(m, n) / 2 && c >= std::min(m, n) / 4 ? "square" : "thin")));
    const structured_lzz_p *M; hankel_lzz_p h; toeplitz_lzz_p t; circulant_row_lzz_p cr; circulant_column_lzz_p cc;
    if (w == 0) { for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[n + m - 2 - i - j]; h = hankel_lzz_p(a, n, m); M = &h; }
    else if (w == 1) { for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = a[m - 1 + i - j]; t = toeplitz_lzz_p(a, n, m); M = &t; }
    else if (w == 2) { CV b = svec(r, m); for (long j = 0; j < m; j++) D[0][j] = b[m - 1 - j]; for (long i = 1; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = D[i - 1][(j + m - 1) % m]; cr = circulant_row_lzz_p(b, n); M = &cr; }
    else { CV b = svec(r, n); for (long j = 0; j < m; j++) for (long i = 0; i < n; i++) D[i][j] = b[((i - j) % n + n) % n]; cc = circulant_column_lzz_p(b, m); M = &cc; }
    if (op == 0) { CV v = svec(r, m), o; k.in("in", v).out("out", o); k.run([&]() { M->mul_right(o, v); }); k.check(normalized(o) && same(o, rcmulv(D, v)), "mul_right(vector) differs from the dense product"); }
    else if (op == 1) { CV v = svec(r, n), o; k.in("in", v).out("out", o); k.run([&]() { M->mul_left(o, v); }); k.check(normalized(o) && same(o, rvmulc(v, D)), "mul_left(vector) differs from the dense product"); }
    else if (op == 2) { CM v = smat(r, m, c), o; k.in("in", v).out("out", o); k.run([&]() { M->mul_right(o, v); }); k.check(normalized(o) && same(o, rcmul(D, v)), "mul_right(matrix) differs from the dense product"); }
    else { CM v = smat(r, c, n), o; k.in("in", v).out("out", o); k.run([&]() { M->mul_left(o, v); }); k.check(normalized(o) && same(o, rcmul(v, D)), "mul_left(matrix) differs from the dense product"); }
}
OP("C17", triangular_circulant, 80, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = rsz(k), m = rsz(k); int w = r.below(3); k.d << n << "x" << m << " kind " << w; CM D;
    if (w == 0) { k.tag("lower_triangular"); CV a = svec(r, n); D.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = a[i - j]; lower_triangular_toeplitz_lzz_p M(a); uses(k, M, D, "lower_triangular_toeplitz"); }
    else if (w == 1) { k.tag("circulant_row"); CV a = svec(r, m); D.SetDims(n, m); for (long j = 0; j < m; j++) D[0][j] = a[m - 1 - j]; for (long i = 1; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = D[i - 1][(j + m - 1) % m]; circulant_row_lzz_p M(a, n); uses(k, M, D, "circulant_row"); }
    else { k.tag("circulant_column"); CV a = svec(r, n); D.SetDims(n, m); for (long i = 0; i < n; i++) D[i][0] = a[i]; for (long j = 1; j < m; j++) for (long i = 0; i < n; i++) D[i][j] = a[((i - j) % n + n) % n]; circulant_column_lzz_p M(a, m); uses(k, M, D, "circulant_column"); }
}
// the four displacement operators, by definition
static CM disp(int w, const CM &A)
{
    long m = A.NumRows(), n = A.NumCols();
    switch (w) { case 0: return csub(rcmul(Zm(m, 1), A), rcmul(A, Zm(n, 0))); case 1: return csub(rcmul(Zm(m, 0), A), rcmul(A, Zm(n, 1))); case 2: return csub(rcmul(Zm(m, 1), A), rcmul(A, tr(Zm(n, 0)))); default: return csub(rcmul(tr(Zm(m, 0)), A), rcmul(A, Zm(n, 1))); }
}
static const char *dn[4] = {"toeplitz_like_plus", "toeplitz_like_minus", "hankel_like_plus", "hankel_like_minus"};
OP("C17", displacement_like, 80, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = rsz(k), n = rsz(k); if (m > 60) m = 60; if (n > 60) n = 60; long al = r.chance(8) ? 0 : r.in(1, 5); int w = r.below(4); k.tag(dn[w]); k.d << dn[w] << " " << m << "x" << n << " gens " << al;
    CM G = smat(r, m, al), H = smat(r, n, al), GH = rcmul(G, tr(H)); std::unique_ptr<structured_lzz_p> M; k.in("G", G).in("H", H); long ng = -1;
    k.run([&]() {
        if (w == 0) { toeplitz_like_plus_lzz_p *p; M.reset(p = new toeplitz_like_plus_lzz_p(G, H)); ng = p->NumGens(); }
        else if (w == 1) { toeplitz_like_minus_lzz_p *p; M.reset(p = new toeplitz_like_minus_lzz_p(G, H)); ng = p->NumGens(); }
        else if (w == 2) { hankel_like_plus_lzz_p *p; M.reset(p = new hankel_like_plus_lzz_p(G, H)); ng = p->NumGens(); }
        else { hankel_like_minus_lzz_p *p; M.reset(p = new hankel_like_minus_lzz_p(G, H)); ng = p->NumGens(); } });
    k.clearReg(); k.check(ng == al, "NumGens"); CM D = M->to_dense(); k.check(D.NumRows() == m && D.NumCols() == n, S(dn[w] << ": dimensions of the dense form")); k.check(same(disp(w, D), GH), S(dn[w] << ": the dense form does not satisfy its displacement equation")); uses(k, *M, D, dn[w]);
    CM A = r.chance(50) ? D : smat(r, m, n), P, E = disp(w, A); bool alias = r.chance(25), vf = r.chance(40); if (alias) { P = A; k.inout("io", P); } else k.in("A", A).out("res", P); const CM &I = alias ? P : A;
    if (vf && !alias) k.run([&]() { if (w == 0) P = toeplitz_lzz_p_phi_plus(I); else if (w == 1) P = toeplitz_lzz_p_phi_minus(I); else if (w == 2) P = hankel_lzz_p_phi_plus(I); else P = hankel_lzz_p_phi_minus(I); }); else
    k.run([&]() { if (w == 0) toeplitz_lzz_p_phi_plus(P, I); else if (w == 1) toeplitz_lzz_p_phi_minus(P, I); else if (w == 2) hankel_lzz_p_phi_plus(P, I); else hankel_lzz_p_phi_minus(P, I); }); k.check(same(P, E), S(dn[w] << ": displacement operator differs from its definition"));
}
static bool cauchy_ok(const zz_p &u, const zz_p &v, const zz_p &rho, long m, long n) { zz_p ir = to_zz_p(1) / rho, a = m > 0 ? v * power(ir, m - 1) : v * rho; for (long i = 0; i < m + n - 1; i++) { if (a == u) return false; a *= rho; } return true; }
OP("C17", cauchy, 80, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = rsz(k), n = rsz(k); zz_p u, v, rho; long t = 0;
    do { u = rc(r); v = rc(r); rho = rnz(r); if (++t > 30) throw Skip{}; if (t % 6 == 0) { m = (m + 1) / 2; n = (n + 1) / 2; } } while (!cauchy_ok(u, v, rho, m, n));
    long al = r.chance(8) ? 0 : r.chance(10) ? r.in(30, 40) : r.in(1, 5); if (al > 10 && m + n > 40) al = 4; bool like = r.chance(60); k.d << m << "x" << n << " u=" << u << " v=" << v << " rho=" << rho << (like ? " gens " : " ") << al; k.tag(like ? "cauchy_like" : "cauchy");
    CM C; C.SetDims(m, n); zz_p a = u; for (long i = 0; i < m; i++) { zz_p b = v; for (long j = 0; j < n; j++) { C[i][j] = to_zz_p(1) / (a - b); b *= rho; } a *= rho; }
    if (!like) {
        cauchy_geometric_lzz_p M(u, v, rho, m, n); uses(k, M, C, "cauchy_geometric"); CM T = C; zz_p q = to_zz_p(1); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) T[i][j] *= q; q *= rho; }
        CV x = svec(r, n), y = svec(r, m), z; k.check(same(M.mul_right_simple(x), rcmulv(T, x)), "mul_right_simple(vector)"); k.check(same(M.mul_left_simple(y), rvmulc(y, T)), "mul_left_simple(vector)"); z = x; M.mul_right_simple(z, z); k.check(same(z, rcmulv(T, x)), "mul_right_simple(vector) on itself"); z = y; M.mul_left_simple(z, z); k.check(same(z, rvmulc(y, T)), "mul_left_simple(vector) on itself");
        CM X = smat(r, n, r.in(0, 4)), Y = smat(r, r.in(0, 4), m); k.check(same(M.mul_right_simple(X), rcmul(T, X)), "mul_right_simple(matrix)"); k.check(same(M.mul_left_simple(Y), rcmul(Y, T)), "mul_left_simple(matrix)"); CM Z = X; M.mul_right_simple(Z, Z); k.check(same(Z, rcmul(T, X)), "mul_right_simple(matrix) on itself"); Z = Y; M.mul_left_simple(Z, Z); k.check(same(Z, rcmul(Y, T)), "mul_left_simple(matrix) on itself");
    } else {
        CM G = smat(r, m, al), H = smat(r, n, al), D = rcmul(G, tr(H)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] *= C[i][j];
        cauchy_like_geometric_lzz_p M(G, H, u, v, rho); k.check(M.NumGens() == al, "NumGens"); uses(k, M, D, "cauchy_like_geometric"); CM X = smat(r, n, r.in(0, 4)), Y; k.in("X", X).out("Y", Y); k.run([&]() { M.mul_right_direct(Y, X); }); k.check(same(Y, rcmul(D, X)), "mul_right_direct");
    }
}
static VL parts(Ctx &k, bool small) { Rng &r = k.rng; VL v(r.in(1, 4)); for (auto &x : v) x = r.chance(30) ? 1 : r.in(1, small ? 6 : r.chance(20) ? k.sz(10, 50, 120) : k.sz(8, 14, 25)); return v; }
static CV rowv(const CM &D, long i) { return D[i]; }
static CV colv(const CM &D, long j) { CV c; c.SetLength(D.NumRows()); for (long i = 0; i < D.NumRows(); i++) c[i] = D[i][j]; return c; }
template <class B, class MO> static void mosaic(Ctx &k, bool hk)
{
    Rng &r = k.rng; VL ro = parts(k, r.chance(50)), co = parts(k, r.chance(50)); k.d << (hk ? "hankel " : "toeplitz ") << show(ro) << " x " << show(co); Vec<Vec<B>> data; data.SetLength(ro.size()); long n = 0, m = 0; for (long x : ro) n += x; for (long x : co) m += x; CM D; D.SetDims(n, m); long ni = 0;
    for (size_t i = 0; i < ro.size(); i++) { data[i].SetLength(co.size()); long mj = 0; for (size_t j = 0; j < co.size(); j++) { CV a = svec(r, ro[i] + co[j] - 1); data[i][j] = B(a, ro[i], co[j]); for (long x = 0; x < ro[i]; x++) for (long y = 0; y < co[j]; y++) D[ni + x][mj + y] = hk ? a[ro[i] + co[j] - 2 - x - y] : a[co[j] - 1 + x - y]; mj += co[j]; } ni += ro[i]; }
    MO M(data); k.check(M.NumBlockRows() == (long)ro.size() && M.NumBlockCols() == (long)co.size(), "numbers of blocks");
    for (long t = 0; t < 12; t++) { long i = r.below(n), j = r.below(m); k.check(M(i, j) == D[i][j], S("operator()(" << i << "," << j << ")")); }
    ni = 0; for (size_t i = 0; i < ro.size(); i++) { k.check(M.NumRows_of_block(i) == ro[i], "NumRows_of_block"); CV a, b; k.out("res", a); k.run([&]() { M.first_row_of_block(a, i); }); k.clearReg(); k.out("res", b); k.run([&]() { M.last_row_of_block(b, i); }); k.clearReg(); k.check(same(M.first_row_of_block((long)i), a) && same(M.last_row_of_block((long)i), b), "first/last_row_of_block: the returned vector differs"); k.check(same(a, rowv(D, ni)), S("first_row_of_block " << i)); k.check(same(b, rowv(D, ni + ro[i] - 1)), S("last_row_of_block " << i)); ni += ro[i]; }
    ni = 0; for (size_t i = 0; i < co.size(); i++) { k.check(M.NumCols_of_block(i) == co[i], "NumCols_of_block"); CV a, b; k.out("res", a); k.run([&]() { M.first_column_of_block(a, i); }); k.clearReg(); k.out("res", b); k.run([&]() { M.last_column_of_block(b, i); }); k.clearReg(); k.check(same(M.first_column_of_block((long)i), a) && same(M.last_column_of_block((long)i), b), "first/last_column_of_block: the returned vector differs"); k.check(same(a, colv(D, ni)), S("first_column_of_block " << i)); k.check(same(b, colv(D, ni + co[i] - 1)), S("last_column_of_block " << i)); ni += co[i]; }
    uses(k, M, D, hk ? "mosaic_hankel" : "mosaic_toeplitz");
    CM G, H; k.out("G", G).out("H", H); k.run([&]() { M.phi_plus_generators(G, H); }); k.check(G.NumRows() == n && H.NumRows() == m && G.NumCols() == H.NumCols(), "phi_plus_generators: dimensions"); k.check(same(rcmul(G, tr(H)), disp(hk ? 2 : 0, D)), "phi_plus_generators: G H^t is not the displacement of the matrix");
}
OP("C17", mosaic_hankel, 60, 1000, 4000) { setmod(k, K_ALL); mosaic<hankel_lzz_p, mosaic_hankel_lzz_p>(k, true); }
OP("C17", mosaic_toeplitz, 60, 1000, 4000) { setmod(k, K_ALL); mosaic<toeplitz_lzz_p, mosaic_toeplitz_lzz_p>(k, false); }
OP("C17", sylvester, 80, 1500, 5000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long da = r.chance(10) ? 0 : rsz(k), db = r.chance(10) ? 0 : rsz(k); if (da > 80) da = 80; if (db > 80) db = 80; if (da + db == 0) da = 1; zz_pX A = rpolyS(r, da), B = rpolyS(r, db); SetCoeff(A, da, rnz(r)); SetCoeff(B, db, r.chance(50) ? to_zz_p(1) : rnz(r)); k.d << "deg " << da << "," << db; long n = da + db; CM D; D.SetDims(n, n);
    for (long j = 0; j < db; j++) for (long i = 0; i <= da; i++) D[i + j][j] = coeff(A, i); for (long j = 0; j < da; j++) for (long i = 0; i <= db; i++) D[i + j][db + j] = coeff(B, i);
    sylvester_lzz_p M; k.in("A", A).in("B", B); k.run([&]() { M = sylvester_lzz_p(A, B); }); k.clearReg(); uses(k, M, D, "sylvester"); if (da == 0 || db == 0) k.tag("constant");
    CM G, H; k.out("G", G).out("H", H); k.run([&]() { M.phi_plus_generators(G, H); }); k.check(G.NumRows() == n && H.NumRows() == n && G.NumCols() == H.NumCols() && same(rcmul(G, tr(H)), disp(0, D)), "sylvester phi_plus_generators: G H^t is not the displacement of the matrix");
}
// objects built on top of memory with arbitrary old contents
template <class T> static void empty_object(Ctx &k, const char *nm)
{
    void *mem = ::operator new(sizeof(T)); memset(mem, (int)k.rng.in(1, 255), sizeof(T)); asm volatile("" : : "r"(mem) : "memory");
    T *o = new (mem) T(); k.tag(nm); struct G { T *o; void *m; ~G() { o->~T(); ::operator delete(m); } } g{o, mem}; k.check(o->NumRows() == 0 && o->NumCols() == 0, S("default-constructed " << nm << " is " << o->NumRows() << "x" << o->NumCols() << " instead of empty"));
}
#define EMPTY(T) empty_object<T>(k, #T)
OP("C17", defaults, 4, 20, 40)
{
    setmod(k, K_ALL); k.d << "default-constructed objects"; EMPTY(hankel_lzz_p); EMPTY(toeplitz_lzz_p); EMPTY(lower_triangular_toeplitz_lzz_p); EMPTY(circulant_row_lzz_p); EMPTY(circulant_column_lzz_p); EMPTY(toeplitz_like_plus_lzz_p); EMPTY(toeplitz_like_minus_lzz_p); EMPTY(hankel_like_plus_lzz_p); EMPTY(hankel_like_minus_lzz_p); EMPTY(cauchy_geometric_lzz_p); EMPTY(cauchy_like_geometric_lzz_p); EMPTY(mosaic_hankel_lzz_p); EMPTY(mosaic_toeplitz_lzz_p); EMPTY(sylvester_lzz_p);
}

// matrices without rows or without columns: products are empty or zero
OP("C17", no_rows_or_columns, 20, 400, 2000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m = r.chance(50) ? 0 : r.in(1, 12), n = m ? 0 : r.in(1, 12); CM D; D.SetDims(m, n); static const int kd[4] = {0, 1, 8, 9}; int w = kd[r.below(4)]; long al = r.in(0, 4); k.d << m << "x" << n << " kind " << w << " gens " << al; k.tag(S("kind" << w << (m ? "nocols" : "norows")));
    CM G = smat(r, m, al), H = smat(r, n, al); CV a = svec(r, std::max(0L, n + m - 1));
    switch (w) {
    case 0: { hankel_lzz_p M(a, m, n); uses(k, M, D, "hankel"); break; }
    case 1: { toeplitz_lzz_p M(a, m, n); uses(k, M, D, "toeplitz"); break; }
    default: { zz_p u, v, rho; long t = 0; do { u = rc(r); v = rc(r); rho = rnz(r); if (++t > 40) throw Skip{}; } while (!cauchy_ok(u, v, rho, m, n)); if (w == 8) { cauchy_geometric_lzz_p M(u, v, rho, m, n); uses(k, M, D, "cauchy_geometric"); } else { cauchy_like_geometric_lzz_p M(G, H, u, v, rho); uses(k, M, D, "cauchy_like_geometric"); } }
    }
}
