// C26: Magma / Sage output, captured at file-descriptor level and read back by an independent evaluator of the target syntax
#include "common.h"
#include "magma_output.h"
#include "sage_output.h"
#include <NTL/ZZX.h>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
PML_CLIENT
static std::string capture(const std::function<void()> &f)
{
    int m = memfd_create("out", 0); if (m < 0) throw std::runtime_error("memfd"); std::cout.flush(); fflush(stdout); int old = dup(1); dup2(m, 1);
    auto fin = [&]() { std::cout.flush(); fflush(stdout); dup2(old, 1); close(old); };
    try { f(); } catch (...) { fin(); close(m); throw; }
    fin(); std::string s; off_t n = lseek(m, 0, SEEK_END); s.resize(n); lseek(m, 0, SEEK_SET); size_t o = 0; while (o < s.size()) { ssize_t g = read(m, &s[o], s.size() - o); if (g <= 0) break; o += g; } close(m); return s;
}
struct Bad { std::string m; };
// value: polynomial with integer coefficients in at most one variable, or list, or matrix (list of rows + ring)
struct Val { int kind = 0; std::map<long, ZZ> c; std::string var, ring; std::vector<Val> l; };   // 0 polynomial, 1 list, 2 matrix, 3 ring
struct Parse {
    std::string s; size_t p = 0; bool magma;
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool eat(const std::string &t) { ws(); if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; } return false; }
    void need(const std::string &t) { if (!eat(t)) throw Bad{"expected '" + t + "' at " + s.substr(p, 30)}; }
    std::string ident() { ws(); std::string r; if (p < s.size() && (isalpha((unsigned char)s[p]) || s[p] == '_')) while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) r += s[p++]; return r; }
    ZZ integer() { ws(); std::string r; while (p < s.size() && isdigit((unsigned char)s[p])) r += s[p++]; if (r.empty()) throw Bad{"expected a number at " + s.substr(p, 30)}; return to_ZZ(r.c_str()); }
    static std::string jv(const std::string &a, const std::string &b) { if (a.empty()) return b; if (b.empty() || a == b) return a; throw Bad{"two variables: " + a + ", " + b}; }
    static void norm(Val &v) { for (auto it = v.c.begin(); it != v.c.end();) if (it->second == 0) it = v.c.erase(it); else ++it; }
    Val sum() { bool neg = false; if (eat("-")) neg = true; else eat("+"); Val v = prod(); if (neg) for (auto &x : v.c) x.second = -x.second; for (;;) { int sg = 0; ws(); if (eat("+")) sg = 1; else if (eat("-")) sg = -1; else break; Val w = prod(); if (v.kind || w.kind) throw Bad{"sum of lists"}; v.var = jv(v.var, w.var); for (auto &x : w.c) v.c[x.first] += sg * x.second; } norm(v); return v; }
    Val prod() { Val v = power(); while (eat("*")) { Val w = power(); if (v.kind || w.kind) throw Bad{"product of lists"}; Val r; r.var = jv(v.var, w.var); for (auto &x : v.c) for (auto &y : w.c) r.c[x.first + y.first] += x.second * y.second; v = r; } return v; }
    Val power() { Val v = atom(); if (eat("^")) { bool neg = eat("-"); ZZ e = integer(); if (neg || v.kind) throw Bad{"bad exponent"}; long n = to_long(e); if (v.c.size() > 1) throw Bad{"power of a sum"}; Val r; r.var = v.var; if (n == 0) r.c[0] = 1; else for (auto &x : v.c) r.c[x.first * n] = NTL::power(x.second, n); return r; } return v; }
    Val list() { Val v; v.kind = 1; if (eat("]")) return v; do v.l.push_back(sum()); while (eat(",")); need("]"); return v; }
    static Val topoly(const Val &l, const std::string &var) { Val r; r.var = var; if (l.kind == 0) { r = l; r.var = jv(l.var, l.c.empty() || (l.c.size() == 1 && l.c.begin()->first == 0) ? "" : var); if (r.var.empty()) r.var = var; return r; } if (l.kind != 1) throw Bad{"cast"}; for (size_t i = 0; i < l.l.size(); i++) { const Val &e = l.l[i]; if (e.kind || e.c.size() > 1 || (e.c.size() == 1 && e.c.begin()->first)) throw Bad{"cast of a list of non-constants"}; if (e.c.size()) r.c[i] = e.c.begin()->second; } return r; }
    Val atom()
    {
        ws(); if (p >= s.size()) throw Bad{"unexpected end"};
        if (eat("(")) { Val v = sum(); need(")"); return v; }
        if (eat("[")) return list();
        if (isdigit((unsigned char)s[p])) { Val v; v.c[0] = integer(); norm(v); return v; }
        std::string id = ident(); if (id.empty()) throw Bad{"unexpected '" + s.substr(p, 10) + "'"};
        if (id == "Matrix" || id == "matrix") { need("("); Val m; m.kind = 2; Val a = sum(); if (a.kind == 3) { m.ring = a.ring; need(","); a = sum(); } if (a.kind != 1) throw Bad{"matrix of a non-list"}; need(")"); m.l = a.l; return m; }
        if (id == "GF") { need("("); Val v; v.kind = 3; ZZ q = integer(); std::ostringstream o; o << q; v.ring = o.str(); need(")"); return v; }
        if (magma && id == "Parent") { need("("); std::string v = ident(); need(")"); need("!"); return topoly(atom(), v); }
        if (id == "U" || id == "UZ") { if (magma) need("!"); Val a; if (magma) a = atom(); else { need("("); a = sum(); need(")"); } return topoly(a, id == "U" ? "x" : "XX"); }
        if (!magma && eat(".parent()")) { need("("); Val a = sum(); need(")"); return topoly(a, id); }
        Val v; v.var = id; v.c[1] = 1; return v;
    }
    void end() { ws(); if (p != s.size()) throw Bad{"trailing text: " + s.substr(p, 30)}; }
};
static Val parse_expr(const std::string &t, bool magma) { Parse q; q.s = t; q.magma = magma; Val v = q.sum(); q.end(); return v; }
static Val parse_assign(const std::string &t, bool magma, const std::string &name)
{
    Parse q; q.s = t; q.magma = magma; std::string n = q.ident(); if (n != name) throw Bad{"assigned to '" + n + "' instead of '" + name + "'"}; q.need(magma ? ":=" : "="); Val v = q.sum(); if (magma) q.need(";"); if (t.empty() || t[t.size() - 1] != '\n') throw Bad{"statement not ended by a newline"}; q.end(); return v;
}
static bool isint(const Val &v, const ZZ &z) { return v.kind == 0 && v.c.size() == (z == 0 ? 0u : 1u) && (z == 0 || (v.c.begin()->first == 0 && v.c.begin()->second == z)); }
static void eqpoly(Ctx &k, const Val &v, const std::vector<ZZ> &c, const std::string &var)
{
    k.check(v.kind == 0, "not a polynomial"); size_t n = 0; for (size_t i = 0; i < c.size(); i++) if (c[i] != 0) { n++; auto it = v.c.find(i); k.check(it != v.c.end() && it->second == c[i], S("coefficient " << i << " lost or changed")); } k.check(n == v.c.size(), "extra coefficients"); k.check(v.var == var, "indeterminate is '" + v.var + "' instead of '" + var + "'");
}
static std::vector<ZZ> co(const zz_pX &f) { std::vector<ZZ> c; for (long i = 0; i <= deg(f); i++) c.push_back(to_ZZ(rep(f.rep[i]))); return c; }
static std::string rname(Rng &r) { static const char *n[] = {"f", "foo", "A1", "v_2", "Mat", "z"}; return n[r.below(6)]; }
static std::string rvar(Rng &r) { static const char *n[] = {"x", "y", "t", "XX", "z1", "T"}; return n[r.below(6)]; }
static ZZ rzz(Rng &r) { ZZ z; int w = r.below(5); if (w == 0) return z; if (w == 1) z = r.in(-5, 5); else { z = 1; for (long i = r.in(1, 6); i > 0; i--) z = z * (long)(r.next() >> 34) + (long)(r.next() >> 40); if (r.chance(50)) z = -z; } return z; }
static void sq(std::string &s) { std::string t; for (char c : s) if (!isspace((unsigned char)c)) t += c; s = t; }
OP("C26", text_vectors, 60, 1500, 6000)
{
    long p = setmod(k, K_ALL); Rng &r = k.rng; bool mg = r.chance(50), as = r.chance(50); int w = r.below(5); long n = r.chance(25) ? r.in(0, 1) : r.chance(90) ? r.in(0, 12) : r.in(13, 400); std::string nm = rname(r), t; std::vector<ZZ> e; k.d << (mg ? "magma" : "sage") << (as ? " assign" : " output") << " vector kind " << w << " length " << n; k.tag(S(mg << as << w));
    try {
        Val v;
        if (w == 4) { long mx = r.chance(90) ? 5 : 40, m = r.chance(15) ? 0 : r.in(1, mx); n = r.in(m == 0 ? 0 : 1, mx); CM M = rcm(r, m, n); if (r.chance(20)) clear(M); k.in("v", M); k.run([&]() { t = capture([&]() { if (mg) { if (as) magma_assign(M, nm); else magma_output(M); } else { if (as) sage_assign(M, nm); else sage_output(M); } }); }); v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); k.check(v.kind == 2, "not a matrix"); k.check(v.ring == S(p), "matrix over GF(" + v.ring + ")");
            if (m == 0) { for (auto &row : v.l) k.check(row.kind == 1 && row.l.empty(), "empty matrix with entries"); return; }
            k.check((long)v.l.size() == m, "number of rows"); for (long i = 0; i < m; i++) { k.check(v.l[i].kind == 1 && (long)v.l[i].l.size() == n, "row length"); for (long j = 0; j < n; j++) k.check(isint(v.l[i].l[j], to_ZZ(rep(M[i][j]))), S("entry " << i << "," << j)); } return; }
        if (w == 0) { Vec<ZZ> a; for (long i = 0; i < n; i++) { a.append(rzz(r)); e.push_back(a[i]); } k.in("v", a); k.run([&]() { t = capture([&]() { if (mg) { if (as) magma_assign(a, nm); else magma_output(a); } else { if (as) sage_assign(a, nm); else sage_output(a); } }); }); }
        if (w == 1) { Vec<long> a; for (long i = 0; i < n; i++) { a.append(r.chance(30) ? r.in(-3, 3) : (long)r.next()); e.push_back(to_ZZ(a[i])); } k.in("v", a); k.run([&]() { t = capture([&]() { if (mg) { if (as) magma_assign(a, nm); else magma_output(a); } else { if (as) sage_assign(a, nm); else sage_output(a); } }); }); }
        if (w == 2) { Vec<unsigned long> a; for (long i = 0; i < n; i++) { a.append(r.chance(30) ? (unsigned long)r.in(0, 3) : (unsigned long)r.next()); e.push_back(to_ZZ(a[i])); } k.in("v", a); k.run([&]() { t = capture([&]() { if (mg) { if (as) magma_assign(a, nm); else magma_output(a); } else { if (as) sage_assign(a, nm); else sage_output(a); } }); }); }
        if (w == 3) { CV a = rcv(r, n); for (long i = 0; i < n; i++) e.push_back(to_ZZ(rep(a[i]))); k.in("v", a); k.run([&]() { t = capture([&]() { if (mg) { if (as) magma_assign(a, nm); else magma_output(a); } else { if (as) sage_assign(a, nm); else sage_output(a); } }); }); }
        v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); k.check(v.kind == 1 && (long)v.l.size() == n, S("list of " << v.l.size() << " entries instead of " << n)); for (long i = 0; i < n; i++) k.check(isint(v.l[i], e[i]), S("entry " << i));
    } catch (Bad &b) { k.fail("text does not parse: " + b.m + " in: " + t.substr(0, 200)); }
    if (r.chance(10)) { std::string a = capture([&]() { if (mg) { magma_init(); magma_init_X(); magma_init_ZZX(); } else { sage_init(); sage_init_X(); sage_init_ZZX(); } }); sq(a); std::string want = mg ? S("k:=GF(" << p << ");U<x>:=PolynomialRing(k);UZ<XX>:=PolynomialRing(Integers());") : S("k=GF(" << p << ")U.<x>=PolynomialRing(k)UZ.<XX>=PolynomialRing(Integers())"); k.check(a == want, "ring definitions: " + a); k.tag("init"); }
}
OP("C26", text_polynomials, 60, 1500, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; bool mg = r.chance(50), as = r.chance(50), hv = r.chance(60); int w = r.below(4); std::string nm = rname(r), var = hv ? rvar(r) : w == 0 ? "XX" : "x", t; k.d << (mg ? "magma" : "sage") << (as ? " assign" : " output") << " polynomial kind " << w << " var " << var; k.tag(S(mg << as << hv << w));
    auto F = [&](const std::function<void()> &a, const std::function<void()> &b, const std::function<void()> &c, const std::function<void()> &d) { k.run([&]() { t = capture([&]() { if (as) { if (hv) a(); else b(); } else { if (hv) c(); else d(); } }); }); };
#define ALL4(x) if (mg) F([&]() { magma_assign(x, var, nm); }, [&]() { magma_assign(x, nm); }, [&]() { magma_output(x, var); }, [&]() { magma_output(x); }); else F([&]() { sage_assign(x, var, nm); }, [&]() { sage_assign(x, nm); }, [&]() { sage_output(x, var); }, [&]() { sage_output(x); });
    try {
        Val v;
        if (w == 0) { ZZX f; std::vector<ZZ> e; for (long i = r.chance(90) ? r.in(0, 8) : r.in(9, 300); i > 0; i--) e.push_back(rzz(r)); for (size_t i = 0; i < e.size(); i++) SetCoeff(f, i, e[i]); k.in("v", f); ALL4(f) v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); eqpoly(k, v, e, var); }
        else if (w == 1) { zz_pX f = rpolyS(r, r.chance(90) ? r.in(0, 12) : r.in(13, 300)); k.in("v", f); ALL4(f) v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); eqpoly(k, v, co(f), var); }
        else if (w == 2) { PV f; long big = r.chance(92) ? 6 : r.in(7, 90), big2 = big == 6 ? 6 : r.in(1, 90); for (long i = r.in(0, big); i > 0; i--) f.append(rpolyS(r, r.in(0, big2))); k.in("v", f); ALL4(f) v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); k.check(v.kind == 1 && (long)v.l.size() == f.length(), "vector length"); for (long i = 0; i < f.length(); i++) eqpoly(k, v.l[i], co(f[i]), var); }
        else { long M = r.chance(92) ? 4 : 24, m = r.in(1, M), n = r.in(1, M); PM f; f.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) f[i][j] = rpolyS(r, r.in(0, 5)); k.in("v", f); ALL4(f) v = as ? parse_assign(t, mg, nm) : parse_expr(t, mg); k.check(v.kind == 2 && (long)v.l.size() == m, "number of rows"); for (long i = 0; i < m; i++) { k.check(v.l[i].kind == 1 && (long)v.l[i].l.size() == n, "row length"); for (long j = 0; j < n; j++) eqpoly(k, v.l[i].l[j], co(f[i][j]), var); } }
    } catch (Bad &b) { k.fail("text does not parse: " + b.m + " in: " + t.substr(0, 200)); }
}
