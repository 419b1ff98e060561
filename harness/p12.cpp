// C12: determinants
#include "common.h"
#include "mat_lzz_pX_extra.h"
PML_CLIENT
static PM gen_det(Ctx &k, long n, long len)
{
    Rng &r = k.rng; int w = r.below(9); k.tag(S("det" << w)); PM F;
    switch (w) {
    case 0: case 1: return rmat(r, n, n, len);
    case 2: return rmatS(r, n, n, len);
    case 3: { F = rmat(r, n, n, len); for (long i = 0; i < n; i++) { long e = r.in(0, len); for (long j = 0; j < n; j++) trunc(F[i][j], F[i][j], e); } return F; }
    case 4: return rmul(rmat_unimod(r, n, std::max(1L, len / 2)), rmat(r, n, n, std::max(1L, len / 2)));
    case 5: { F = rmat(r, n, n, len); if (n > 1) { long a = r.below(n), b = r.below(n); F[a] = F[b]; } return F; }
    case 6: return rmat(r, n, n, 1);
    case 7: return rzero(n, n);
    default: { F = rzero(n, n); for (long i = 0; i < n; i++) F[i][(i + 1) % n] = rpolyS(r, len); return F; }
    }
}
static bool prop(const zz_pX &a, const zz_pX &b) { if (IsZero(a) || IsZero(b)) return IsZero(a) && IsZero(b); return a * LeadCoeff(b) == b * LeadCoeff(a); }
static void det_case(Ctx &k, const char *who, int kinds, long fac, long nmax, void (*f)(zz_pX &, const PM &), bool fft = false)
{
    setmod(k, kinds); Rng &r = k.rng; long n = r.in(1, nmax), len = r.in(1, k.sz(6, 14, 40)); PM A = gen_det(k, n, len);
    long N = n * std::max(0L, rdeg(A)) + 1; if (fac && zz_p::modulus() <= fac * N) throw Skip(); if (fft && !is_FFT_ready(NextPowerOfTwo(N))) throw Skip();
    k.d << "A=" << dims(A); zz_pX d; k.in("pmat", A).out("det", d); k.run([&]() { f(d, A); });
    k.check(normalized(d), S(who << ": unnormalized")); k.check(d == rdet(A), S(who << ": wrong determinant of " << show(A)));
}
OP("C12", det_general, 60, 2000, 8000) { det_case(k, "determinant_via_evaluation_general", K_ALL, 1, k.sz(4, 6, 9), determinant_via_evaluation_general); }
OP("C12", det_geometric, 60, 2000, 8000) { det_case(k, "determinant_via_evaluation_geometric", K_NOTINY | K_SMALL, 8, k.sz(4, 6, 9), determinant_via_evaluation_geometric); }
OP("C12", det_FFT, 60, 2000, 8000) { det_case(k, "determinant_via_evaluation_FFT", K_FFT | K_UFFT, 0, k.sz(4, 6, 9), determinant_via_evaluation_FFT, true); }
OP("C12", det_minors, 60, 2000, 8000) { det_case(k, "determinant_expansion_by_minors", K_ALL, 0, 4, determinant_expansion_by_minors); }
OP("C12", det_minors_rec, 60, 1500, 6000) { det_case(k, "determinant_expansion_by_minors_rec", K_ALL, 0, 5, determinant_expansion_by_minors_rec); }
OP("C12", det_generic, 60, 1500, 6000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.chance(40) ? r.in(1, 4) : r.in(5, k.sz(7, 10, 20)), len = r.in(1, k.sz(4, 8, 16)); bool gen = r.chance(60);
    PM A = gen ? rmat(r, n, n, len) : gen_det(k, n, len); zz_pX D = rdet(A), d; long dg = deg(D); bool ok = false; if (IsZero(D)) throw Skip();
    k.d << "A=" << dims(A) << " degree=" << dg << " gen=" << gen; k.in("pmat", A).out("det", d); k.run([&]() { ok = determinant_generic_knowing_degree(d, A, dg); k.undef = !ok; });
    k.tag(S("ok" << ok)); if (ok) k.check(prop(d, D), "determinant_generic_knowing_degree: reports success with a wrong determinant");
    if (n <= 4) k.check(ok, "determinant_generic_knowing_degree: failure in the base case");
    else if (gen && zz_p::modulus() > (1L << 40) && deg(D) == n * (len - 1) && len > 1) k.check(ok, "determinant_generic_knowing_degree: failure on a generic matrix");
}
OP("C12", det_linsolve, 60, 1000, 4000)
{
    setmod(k, K_BIG | K_FFT); Rng &r = k.rng; if (zz_p::modulus() < (1L << 45)) throw Skip(); long n = r.in(1, k.sz(4, 7, 12)), len = r.in(1, k.sz(5, 9, 20)); PM A = rmat(r, n, n, len);
    if (r.chance(30)) for (long i = 0; i < n; i++) { long e = r.in(1, len); for (long j = 0; j < n; j++) trunc(A[i][j], A[i][j], e); }
    CM c = rcm_inv(r, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(A[i][j], 0, c[i][j]);
    k.d << "A=" << dims(A); zz_pX d, D = rdet(A); if (deg(D) < 1 && rdeg(A) > 0) throw Skip(); k.in("pmat", A).out("det", d); k.run([&]() { determinant_via_linsolve(d, A); });
    k.check(prop(d, D), "determinant_via_linsolve: not the determinant up to a constant");
}
// repeated invariant factors: listed in known_findings.json
OP("C12", det_linsolve_smith, 2, 4, 4)
{
    setmod(k, K_FFT); Rng &r = k.rng; long n = 2; zz_pX f = rpoly(r, 4); SetCoeff(f, 0, 1); SetCoeff(f, 3, 1); PM A = rzero(n, n); for (long i = 0; i < n; i++) A[i][i] = f;
    k.d << "f*I with deg f=3"; zz_pX d; k.in("pmat", A).out("det", d); k.run([&]() { determinant_via_linsolve(d, A); });
    k.check(prop(d, rdet(A)), "determinant_via_linsolve: not the determinant up to a constant");
}
OP("C12", verify_det, 60, 2000, 8000)
{
    setmod(k, K_ALL); Rng &r = k.rng; long n = r.in(1, k.sz(4, 6, 9)), len = r.in(1, k.sz(6, 14, 40)); PM A = gen_det(k, n, len); zz_pX D = rdet(A), cand = D; bool utc = r.chance(50), want = true; int w = r.below(6);
    bool large = zz_p::modulus() > (1L << 40);
    if (w == 1) { if (utc) cand *= rnz(r); }
    else if (w >= 2) {
        if (!large) throw Skip();   // Monte Carlo rejection
        if (w == 2) SetCoeff(cand, r.in(0, std::max(0L, deg(D)) + 1), rnz(r)); else if (w == 3) cand += rnz(r); else if (w == 4) cand *= rpoly(r, 3); else cand = -cand + rpoly(r, 2);
        if (r.chance(10)) cand = zz_pX(); if (r.chance(5)) cand = rpoly(r, 4);
        if (utc ? (IsZero(cand) == IsZero(D) && (IsZero(D) || prop(cand, D))) : cand == D) throw Skip(); want = false;
    }
    k.d << "A=" << dims(A) << " up_to_constant=" << utc << " kind=" << w; k.tag(S("v" << w << utc)); bool got = !want; k.in("pmat", A).in("det", cand); k.run([&]() { got = verify_determinant(cand, A, utc, true); });
    k.check(got == want, S("verify_determinant: returned " << got << " for a " << (want ? "correct" : "wrong") << " determinant"));
}
