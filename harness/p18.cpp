// C18: structured solvers and inverses
#include "common.h"
#include "mat_lzz_p_extra.h"
#include "structured_lzz_p.h"
PML_CLIENT
static CM tr(const CM &a) { CM b; b.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) b[j][i] = a[i][j]; return b; }
static CM lead(const CM &a, long r) { CM b; b.SetDims(r, r); for (long i = 0; i < r; i++) for (long j = 0; j < r; j++) b[i][j] = a[i][j]; return b; }
static CM cid(long n) { CM b; b.SetDims(n, n); for (long i = 0; i < n; i++) b[i][i] = 1; return b; }
// length of the longest chain of nonzero leading principal minors (elimination without pivoting)
static long grp_len(CM a)
{
    long n = std::min(a.NumRows(), a.NumCols());
    for (long k = 0; k < n; k++) { if (a[k][k] == 0) return k; zz_p iv = to_zz_p(1) / a[k][k]; for (long i = k + 1; i < a.NumRows(); i++) { zz_p q = a[i][k] * iv; if (q == 0) continue; for (long j = k; j < a.NumCols(); j++) a[i][j] -= q * a[k][j]; } }
    return n;
}
static bool consistent(const CM &D, const CV &b) { CM A; A.SetDims(D.NumRows(), D.NumCols() + 1); for (long i = 0; i < D.NumRows(); i++) { for (long j = 0; j < D.NumCols(); j++) A[i][j] = D[i][j]; A[i][D.NumCols()] = b[i]; } return rrank(A) == rrank(D); }
static bool cauchy_ok(const zz_p &u, const zz_p &v, const zz_p &rho, long m, long n)
{
    long N = std::max(m, n); zz_p a = to_zz_p(1); for (long i = 1; i < N; i++) { a *= rho; if (a == 1) return false; }
    zz_p ir = to_zz_p(1) / rho; a = v * power(ir, N - 1); for (long i = 0; i < 2 * N - 1; i++) { if (a == u) return false; a *= rho; } return true;
}
OP("C18", cauchy_like, 60, 1500, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long m, n, t = 0; m = r.chance(55) ? r.in(1, 12) : r.in(1, k.sz(25, 60, 120)); bool big = r.chance(k.tier == 0 ? 0 : k.tier == 1 ? 4 : 8); if (big) m = r.in(200, k.tier == 2 ? 450 : 230); n = r.chance(60) ? m : big ? r.in(m - 5, m + 20) : r.in(1, 2 * m);
    zz_p u, v, rho; do { u = rnz(r); v = rnz(r); rho = rnz(r); if (++t > 40) throw Skip{}; if (t % 8 == 0) { m = (m + 1) / 2; n = (n + 1) / 2; } } while (!cauchy_ok(u, v, rho, m, n));
    long al = r.chance(70) ? r.in(1, 4) : r.in(1, big ? 6 : 20); CM G = rcm(r, m, al), H = rcm(r, n, al); long N = std::min(m, n);
    int w = r.below(10); k.tag(S("shape" << w)); zz_p z0 = to_zz_p(0);
    if (w == 1) { long q = r.below(N); for (long j = 0; j < al; j++) { for (long i = q; i < m; i++) G[i][j] = 0; } }                                          // zero rows below: rank <= q, generic above
    if (w == 2) { long q = r.below(n); for (long i = q; i < n; i++) for (long j = 0; j < al; j++) H[i][j] = 0; }
    if (w == 3) { long q = r.below(m); for (long j = 0; j < al; j++) G[q][j] = 0; }                                                                            // one zero row in the middle: no generic rank profile unless last
    if (w == 4) { long q = r.below(N); zz_p s = z0; if (al > 1) { for (long j = 1; j < al; j++) s += G[0][j] * H[0][j]; if (q == 0 && H[0][0] != 0) G[0][0] = -s / H[0][0]; } }   // first minor vanishes
    if (w == 5) { for (long i = 0; i < m; i++) for (long j = 0; j < al; j++) if (r.chance(60)) G[i][j] = 0; for (long i = 0; i < n; i++) for (long j = 0; j < al; j++) if (r.chance(60)) H[i][j] = 0; }
    if (w == 6 && N > 2) { long q = r.in(1, N - 1); for (long j = 0; j < al; j++) for (long i = q; i < m; i++) if (j > 0 || al == 1) G[i][j] = 0; }
    if (w == 7) { long a0 = r.chance(50) ? 0 : r.below(N), a1 = r.chance(60) ? std::min(m, (N + 1) / 2) : r.in(a0, m); for (long i = a0; i < a1; i++) for (long j = 0; j < al; j++) G[i][j] = 0; }          // a band of zero rows
    if (w == 8) { long a0 = r.chance(50) ? 0 : r.below(N), a1 = r.chance(60) ? std::min(n, (N + 1) / 2) : r.in(a0, n); for (long i = a0; i < a1; i++) for (long j = 0; j < al; j++) H[i][j] = 0; }
    if (w == 9) { long q = r.in(0, N), b0 = r.chance(50) ? N : r.in(q, std::max(m, n)), b1 = r.chance(50) ? N : r.in(q, std::max(m, n)); for (long i = q; i < std::min(b0, m); i++) for (long j = 0; j < al; j++) G[i][j] = 0; for (long i = q; i < std::min(b1, n); i++) for (long j = 0; j < al; j++) H[i][j] = 0; }   // rank found early, entries far from the diagonal remain
    CM D = rcmul(G, tr(H)); zz_p a = u; for (long i = 0; i < m; i++) { zz_p b = v; for (long j = 0; j < n; j++) { D[i][j] /= a - b; b *= rho; } a *= rho; }
    long rk = rrank(D), gl = grp_len(D); bool grp = gl >= rk; long th = r.chance(40) ? -1 : r.in(0, 40), ta = r.chance(40) ? -1 : r.in(1, 12); k.d << m << "x" << n << " gens " << al << " rank " << rk << " chain " << gl << " shape " << w << " thresholds " << th << "," << ta; k.tag(grp ? "grp" : "no_grp"); k.tag(al >= (ta < 0 ? 8 : ta) && al <= N ? "block" : "plain"); if (N >= 200) k.tag("recursive"); if (rk < N) k.tag("singular");
    cauchy_like_geometric_lzz_p M(G, H, u, v, rho);
    if (r.chance(60)) {
        cauchy_like_geometric_lzz_p I; long ret = -1; k.run([&]() { ret = M.invert_leading_principal_minor_grp(I, th, ta); }); k.check(ret == 0 || ret == 1, "invert_leading_principal_minor_grp: return value"); k.check(ret == 1 || !grp, "failure reported for a matrix with generic rank profile");
        if (ret == 1) { long q = I.NumRows(); k.check(I.NumCols() == q, "inverse of the leading minor is not square"); k.check(q == rk, S("size " << q << " of the inverted leading minor is not the rank " << rk)); CM X = I.to_dense(); k.check(X.NumRows() == q && X.NumCols() == q && same(rcmul(lead(D, q), X), cid(q)), "not the inverse of the leading principal minor");
            if (q > 0) { CV b = rcv(r, q), x = I.mul_right(b); k.check(same(rcmulv(lead(D, q), x), b), "product by the returned inverse"); } }
        if (r.chance(20)) { cauchy_like_geometric_lzz_p A2 = M; long r2 = A2.invert_leading_principal_minor_grp(A2, th, ta); k.check(r2 == ret, "different verdict when the result overwrites the matrix"); if (ret == 1) k.check(same(A2.to_dense(), I.to_dense()), "different inverse when the result overwrites the matrix"); }
    }
    for (int q = 0; q < 2; q++) {
        CV b = r.chance(50) ? rcmulv(D, rcv(r, n)) : r.chance(20) ? rcmulv(D, CV(INIT_SIZE, n)) : rcv(r, m), x; long ret = -1; k.in("b", b).out("x", x); k.run([&]() { ret = M.solve_grp(x, b, th, ta); if (k.mode == M_PURE) x.SetLength(0); }); k.clearReg(); if (k.mode == M_PURE) ret = M.solve_grp(x, b, th, ta);
        k.check(ret == 0 || ret == 1, "solve_grp: return value"); k.check(ret == 1 || !grp, "solve_grp: failure reported for a matrix with generic rank profile"); if (ret != 1) continue; bool cs = consistent(D, b); k.tag(cs ? "consistent" : "inconsistent");
        if (x.length() == 0 && n > 0) k.check(!cs, "solve_grp: no solution returned for a consistent system"); else { k.check(x.length() == n && normalized(x), "solve_grp: length of the solution"); k.check(same(rcmulv(D, x), b), "solve_grp: success reported with a wrong solution"); }
    }
}
static VL split(Rng &r, long n) { VL v; while (n > 0) { long x = v.size() >= 4 ? n : r.in(1, n); if (r.chance(30)) x = n; v.push_back(x); n -= x; } return v; }
template <class B, class MO, class IV> static void mosaic(Ctx &k, bool hk, bool inverse)
{
    Rng &r = k.rng; long p = zz_p::modulus(), n = r.chance(15) ? 1 : r.chance(60) ? r.in(1, 10) : r.in(1, k.sz(20, 45, 90)); if (k.tier > 0 && r.chance(2)) n = r.in(200, 215); long m = inverse || r.chance(50) ? n : r.in(1, 2 * n); bool small = std::max(m, n) > p / 10 || p < (1L << 40);
    VL ro = split(r, n), co = split(r, m); CM D; D.SetDims(n, m); Vec<Vec<B>> data; data.SetLength(ro.size()); int w = r.below(5); long ni = 0; CV dup; k.tag(S("data" << w));
    for (size_t i = 0; i < ro.size(); i++) { data[i].SetLength(co.size()); long mj = 0;
        for (size_t j = 0; j < co.size(); j++) { CV a = rcv(r, ro[i] + co[j] - 1); if (w == 1) for (long q = 0; q < a.length(); q++) if (r.chance(70)) a[q] = 0; if (w == 2 && r.chance(50)) for (long q = 0; q < a.length(); q++) a[q] = 0; if (w == 3) { zz_p c = rc(r); for (long q = 0; q < a.length(); q++) a[q] = c; }
            data[i][j] = B(a, ro[i], co[j]); for (long x = 0; x < ro[i]; x++) for (long y = 0; y < co[j]; y++) D[ni + x][mj + y] = hk ? a[ro[i] + co[j] - 2 - x - y] : a[co[j] - 1 + x - y]; mj += co[j]; } ni += ro[i]; }
    long rk = rrank(D); long th = r.chance(40) ? -1 : r.in(0, 40), ta = r.chance(40) ? -1 : r.in(1, 12); k.d << show(ro) << " x " << show(co) << " data " << w << " rank " << rk << " thresholds " << th << "," << ta; k.tag(rk == std::min(m, n) ? "full_rank" : "rank_deficient"); if (small) k.tag("small_field");
    MO M(data); long ret = 0;
    if (inverse) {
        IV I; bool ok = false; for (int q = 0; q < (small ? 1 : 3) && !ok; q++) { ret = -1; k.run([&]() { ret = M.inv(I, th, ta); }); k.check(ret == 0 || ret == 1, "inv: return value"); ok = ret == 1; }
        if (ok) { CM X = I.to_dense(); k.check(X.NumRows() == n && X.NumCols() == n && same(rcmul(D, X), cid(n)), "inv: success reported with a wrong inverse"); CV b = rcv(r, n); k.check(same(rcmulv(D, I.mul_right(b)), b), "inv: product by the returned inverse is not the solution"); k.tag("success"); }
        else k.check(small || rk < n, "inv: failure reported three times for a nonsingular matrix over a large field");
    } else for (int z = 0; z < 2; z++) {
        CV b = r.chance(60) ? rcmulv(D, rcv(r, m)) : rcv(r, n), x; bool ok = false, cs = consistent(D, b); for (int q = 0; q < (small ? 1 : 3) && !ok; q++) { ret = -1; k.in("b", b); x = rcv(r, r.below(2 * m)); k.run([&]() { ret = M.solve(x, b, th, ta); }); k.clearReg(); k.check(ret == 0 || ret == 1, "solve: return value"); ok = ret == 1; }
        k.tag(cs ? "consistent" : "inconsistent");
        if (!ok) k.check(small, "solve: failure reported three times over a large field"); else if (x.length() == 0) k.check(!cs, "solve: no solution returned for a consistent system"); else { k.check(x.length() == m && normalized(x) && same(rcmulv(D, x), b), "solve: success reported with a wrong solution"); k.tag("success"); }
    }
}
OP("C18", mosaic_hankel_solve, 40, 700, 2500) { setmod(k, K_ALL); mosaic<hankel_lzz_p, mosaic_hankel_lzz_p, hankel_like_minus_lzz_p>(k, true, false); }
OP("C18", mosaic_hankel_inv, 40, 700, 2500) { setmod(k, K_ALL); mosaic<hankel_lzz_p, mosaic_hankel_lzz_p, hankel_like_minus_lzz_p>(k, true, true); }
OP("C18", mosaic_toeplitz_solve, 40, 700, 2500) { setmod(k, K_ALL); mosaic<toeplitz_lzz_p, mosaic_toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(k, false, false); }
OP("C18", mosaic_toeplitz_inv, 40, 700, 2500) { setmod(k, K_ALL); mosaic<toeplitz_lzz_p, mosaic_toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(k, false, true); }
OP("C18", sylvester_solve, 80, 1500, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long da = r.chance(70) ? r.in(1, 9) : r.in(1, k.sz(15, 50, 110)), db = r.chance(20) ? da : r.chance(70) ? r.in(1, 9) : r.in(1, k.sz(15, 50, 110)); zz_pX A = rpolyS(r, da), B = rpolyS(r, db); SetCoeff(A, da, rnz(r)); SetCoeff(B, db, r.chance(50) ? to_zz_p(1) : rnz(r)); int w = r.below(6); k.tag(S("shape" << w));
    if (w == 0) { zz_pX c = rpoly(r, 1 + r.below(3)); SetCoeff(c, deg(c) < 0 ? 1 : deg(c) + 1, 1); A *= c; B *= c; }            // common factor
    if (w == 1) { A = power(A, 2); }
    if (w == 2) { B = A * rnz(r); SetCoeff(B, 0, coeff(B, 0) + rc(r)); }                                                 // Bezout coefficients of low degree
    if (w == 3) { zz_pX q = rpoly(r, 3); B = A * q + rnz(r); if (deg(B) < 1) B = A; }
    da = deg(A); db = deg(B); long n = da + db; CM D; D.SetDims(n, n); for (long j = 0; j < db; j++) for (long i = 0; i <= da; i++) D[i + j][j] = coeff(A, i); for (long j = 0; j < da; j++) for (long i = 0; i <= db; i++) D[i + j][db + j] = coeff(B, i);
    zz_pX g; GCD(g, A, B); bool sing = deg(g) > 0; sylvester_lzz_p M(A, B); bool prep = r.chance(50); k.d << "deg " << da << "," << db << (sing ? " singular" : "") << (prep ? " prepared" : "") << " shape " << w; k.tag(sing ? "singular" : "invertible"); k.tag(prep ? "prepared" : "direct"); if (prep) k.run([&]() { M.prepare_inverse(); });
    for (long s = 0; s < 3; s++) {
        if (r.chance(15)) perturb_history(r);
        bool al = r.chance(25); long ret = -1;
        switch (r.below(6)) {
        case 0: { CV b = rcv(r, n), x; if (al) { x = b; ret = M.solve(x, x); } else { k.in("b", b).out("x", x); k.run([&]() { ret = M.solve(x, b); k.undef = ret != 1; }); k.clearReg(); } k.check(ret == (sing ? 0 : 1), "solve: verdict"); if (!sing) k.check(x.length() == n && same(rcmulv(D, x), b), "solve: wrong solution"); break; }
        case 1: { CV b = rcv(r, n), x; if (al) { x = b; ret = M.solve_transpose(x, x); } else { k.in("b", b).out("x", x); k.run([&]() { ret = M.solve_transpose(x, b); k.undef = ret != 1; }); k.clearReg(); } k.check(ret == (sing ? 0 : 1), "solve_transpose: verdict"); if (!sing) k.check(x.length() == n && same(rvmulc(x, D), b), "solve_transpose: wrong solution"); break; }
        case 2: { CM b = rcm(r, n, r.in(1, 4)), x; if (al) { x = b; ret = M.solve(x, x); } else { k.in("b", b).out("x", x); k.run([&]() { ret = M.solve(x, b); k.undef = ret != 1; }); k.clearReg(); } k.check(ret == (sing ? 0 : 1), "solve(matrix): verdict"); if (!sing) k.check(x.NumRows() == n && same(rcmul(D, x), b), "solve(matrix): wrong solution"); break; }
        case 3: { CM b = rcm(r, r.in(1, 4), n), x; if (al) { x = b; ret = M.solve_transpose(x, x); } else { k.in("b", b).out("x", x); k.run([&]() { ret = M.solve_transpose(x, b); k.undef = ret != 1; }); k.clearReg(); } k.check(ret == (sing ? 0 : 1), "solve_transpose(matrix): verdict"); if (!sing) k.check(x.NumCols() == n && same(rcmul(x, D), b), "solve_transpose(matrix): wrong solution"); break; }
        case 4: { toeplitz_like_minus_lzz_p I; k.run([&]() { ret = M.inv(I); }); k.check(ret == (sing ? 0 : 1), "inv: verdict"); if (!sing) { k.check(same(rcmul(D, I.to_dense()), cid(n)), "inv: wrong inverse"); CV b = rcv(r, n); k.check(same(rcmulv(D, I.mul_right(b)), b), "inv: product by the inverse"); } break; }
        default: { long q = r.chance(40) ? r.in(1, n) : r.in(1, std::min(n, std::max(da, db))); CM X; k.out("block", X); k.run([&]() { ret = M.top_right_block_inverse(X, q); k.undef = ret != 1; }); k.clearReg(); k.check(ret == (sing ? 0 : 1), "top_right_block_inverse: verdict"); if (sing) break; k.check(X.NumRows() == q && X.NumCols() == q, "top_right_block_inverse: dimensions");
            CM I; zz_p dt; inv(dt, I, D); bool ok = true; for (long i = 0; i < q; i++) for (long j = 0; j < q; j++) ok = ok && X[i][j] == I[i][n - q + j]; k.check(ok, S("top_right_block_inverse(" << q << ") is not the block of the inverse")); }
        }
    }
}
