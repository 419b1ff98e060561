// C15: Chinese remaindering and bilinear transforms
#include "common.h"
#include "lzz_pX_CRT.h"
PML_CLIENT
static PV gen_moduli(Ctx &k, long want, long dmax)
{
    Rng &r = k.rng; PV q; zz_pX prod; set(prod); int w = r.below(4); k.tag(S("moduli" << w)); long tries = 0;
    while (q.length() < want && tries++ < 20 * want + 20) {
        long d = w == 0 ? 1 : w == 1 ? dmax : r.in(1, dmax); if (w == 3) d = r.chance(80) ? 1 : dmax;
        zz_pX f = rpoly(r, d); SetCoeff(f, d, r.chance(50) ? to_zz_p(1) : rnz(r));
        zz_pX g; GCD(g, f, diff(f)); if (deg(g) != 0) continue; GCD(g, f, prod); if (deg(g) != 0) continue;
        prod *= f; q.append(f);
    }
    if (q.length() == 0) throw Skip{};
    return q;
}
OP("C15", crt, 120, 2500, 9000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long want = r.chance(15) ? 1 : r.chance(50) ? r.in(1, 9) : r.in(1, k.sz(20, 50, 150)); PV q = gen_moduli(k, want, r.in(1, r.chance(20) ? k.sz(20, 60, 200) : k.sz(5, 9, 20)));
    long n = q.length(), tot = 0; zz_pX prod; set(prod); for (long i = 0; i < n; i++) { tot += deg(q[i]); prod *= q[i]; } k.d << "n=" << n << " total degree " << tot;
    if (r.chance(40)) { Vec<PV> tree; k.in("q", q).out("tree", tree); k.run([&]() { build_subproduct_tree(tree, q); }); k.check(tree.length() >= 1 && same(tree[0], q) && tree[tree.length() - 1].length() == 1 && tree[tree.length() - 1][0] == prod, "build_subproduct_tree: leaves or root wrong");
        for (long l = 1; l < tree.length(); l++) { long a = tree[l - 1].length(); k.check(tree[l].length() == (a + 1) / 2, "build_subproduct_tree: level length"); for (long j = 0; j < tree[l].length(); j++) k.check(tree[l][j] == (2 * j + 1 < a ? tree[l - 1][2 * j] * tree[l - 1][2 * j + 1] : tree[l - 1][2 * j]), S("build_subproduct_tree: node " << l << "," << j)); } }
    zz_pX_CRT c0(q); std::unique_ptr<zz_pX_CRT> cp(new zz_pX_CRT(c0)); zz_pX_CRT &c = r.chance(50) ? c0 : *cp; zz_pX m; c.master(m); k.check(m == prod, "master is not the product of the moduli"); k.check(c.length() == n, "length is not the number of moduli"); for (long i = 0; i < n; i++) { c.moduli(m, i); k.check(m == q[i], "moduli(i)"); }
    long st = r.in(1, 6);
    for (long s = 0; s < st; s++) {
        if (r.chance(20)) perturb_history(r);
        if (r.chance(50)) {
            zz_pX f = rpolyS(r, r.chance(30) ? r.in(0, 3 * tot + 3) : r.in(0, tot + 1)); if (r.chance(10)) f = prod * rpoly(r, 4); PV v; k.in("f", f).out("val", v); k.run([&]() { c.multimod(v, f); }); k.check(v.length() == n && normalized(v), "multimod: wrong number of remainders");
            for (long i = 0; i < n; i++) k.check(v[i] == f % q[i], S("use " << s << ": multimod: remainder " << i << " of " << n << " wrong, deg f=" << deg(f)));
            zz_pX g; k.in("val", v).out("f", g); k.run([&]() { c.combine(g, v); }); k.check(normalized(g) && g == f % prod, S("use " << s << ": combine does not recover the polynomial"));
        } else {
            PV v; v.SetLength(n); bool big = r.chance(20); for (long i = 0; i < n; i++) v[i] = r.chance(20) ? zz_pX() : rpoly(r, big ? r.in(0, 2 * deg(q[i]) + 2) : deg(q[i])); zz_pX g; k.in("val", v).out("f", g); k.run([&]() { c.combine(g, v); });
            k.check(normalized(g) && deg(g) < tot, S("use " << s << ": combine: degree " << deg(g))); for (long i = 0; i < n; i++) k.check((g - v[i]) % q[i] == 0, S("use " << s << ": combine: remainder " << i << " of " << n << " wrong"));
        }
    }
}
static void transform_uses(Ctx &k, const zz_pX_Transform &T, long m)
{
    Rng &r = k.rng; k.check(T.input_length() == m, "input_length"); long n = T.transform_length();
    for (long s = 0; s < 4; s++) {
        if (r.chance(60)) {
            zz_pX a = rpolyS(r, m), b = rpolyS(r, m), c; CV u, v, w; k.in("a", a).out("u", u); k.run([&]() { T.forward_left(u, a); }); k.in("b", b).out("v", v); k.run([&]() { T.forward_right(v, b); });
            k.check(u.length() == n && v.length() == n && normalized(u) && normalized(v), "forward transforms: wrong length"); w.SetLength(n); for (long i = 0; i < n; i++) w[i] = u[i] * v[i];
            k.in("w", w).out("c", c); k.run([&]() { T.backward(c, w); }); k.check(normalized(c) && c == a * b, S("transform of length " << m << ": product differs, degrees " << deg(a) << "," << deg(b)));
        } else {
            bool mat = r.chance(60); long x = mat ? r.in(1, 3) : 1, y = r.in(1, 3), z = mat ? r.in(1, 3) : 1; PM A = rmatS(r, x, y, m), B = rmatS(r, y, z, m), C;
            if (mat) { Vec<CM> U, V, W; k.in("A", A).out("U", U); k.run([&]() { T.forward_left_matrix(U, A); }); k.in("B", B).out("V", V); k.run([&]() { T.forward_right_matrix(V, B); }); k.check(U.length() == n && V.length() == n, "matrix transforms: length"); W.SetLength(n); for (long i = 0; i < n; i++) W[i] = rcmul(U[i], V[i]); k.in("W", W).out("C", C); k.run([&]() { T.backward_matrix(C, W); }); k.check(normalized(C) && same(C, rmul(A, B)), S("matrix transform of length " << m << ": product differs")); }
            else { PV a = A[0], b, c, e; b.SetLength(y); e.SetLength(y); for (long i = 0; i < y; i++) { b[i] = B[i][0]; e[i] = a[i] * b[i]; } Vec<CV> U, V, W; k.in("a", a).out("U", U); k.run([&]() { T.forward_left_vector(U, a); }); k.in("b", b).out("V", V); k.run([&]() { T.forward_right_vector(V, b); });
                k.check(U.length() == V.length(), "vector transforms: lengths differ"); W = U; for (long i = 0; i < W.length(); i++) { k.check(U[i].length() == V[i].length(), "vector transforms: lengths differ"); for (long j = 0; j < W[i].length(); j++) W[i][j] = U[i][j] * V[i][j]; } k.in("W", W).out("c", c); k.run([&]() { T.backward_vector(c, W); }); k.check(same(c, e), S("vector transform of length " << m << ": product differs")); }
        }
    }
}
OP("C15", transform, 120, 2500, 9000)
{
    setmod(k, K_ALL); Rng &r = k.rng; int w = r.below(4); k.d << "class=" << w; k.tag(S("class" << w));
    switch (w) {
    case 0: { long d = r.in(1, k.sz(5, 10, 16)); k.d << " d=" << d; zz_pX_Transform_naive T(d); transform_uses(k, T, d); break; }
    case 1: { zz_pX_Transform_karatsuba T; transform_uses(k, T, 2); break; }
    case 2: { zz_pX_Transform_montgomery3 T; transform_uses(k, T, 3); break; }
    default: { zz_pX_Transform_karatsuba4 T; transform_uses(k, T, 4); }
    }
}
