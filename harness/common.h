// Shared harness layer: case registry, deterministic generators, monitors, NTL-level reference arithmetic.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <memory>
#include <NTL/lzz_pX.h>
#include <NTL/matrix.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/version.h>

NTL_CLIENT

typedef std::vector<long> VL;
typedef Mat<zz_pX> PM;
typedef Vec<zz_pX> PV;
typedef Mat<zz_p> CM;
typedef Vec<zz_p> CV;

struct Fail { std::string msg; };
struct NtlErr { std::string msg; };   // thrown from NTL's error callback
struct Skip {};                       // case drew an input outside the documented domain

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    long below(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
    long in(long a, long b) { return b < a ? a : a + below(b - a + 1); }   // inclusive
    bool chance(int pct) { return below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((long)v.size())]; }
};

enum Mode { M_NORMAL = 0, M_PURE = 1 };

// modulus kinds
enum MK { K_FFT = 1, K_UFFT = 2, K_BIG = 4, K_MID = 8, K_SMALL = 16, K_TINY = 32,
          K_LARGEONLY = K_FFT | K_BIG, K_NOTINY = K_FFT | K_UFFT | K_BIG | K_MID, K_ALL = 63 };

struct Ctx {
    Rng rng;
    std::string op;
    long idx = 0;
    int mode = 0;
    int tier = 0;        // 0 small sizes (sanitizer / valgrind), 1 quick, 2 thorough
    std::ostringstream d;  // description of the case
    bool nontriv = true;
    long checks = 0;
    long calls = 0;
    uint64_t seed = 1;
    std::vector<std::function<void()>> verify;          // input purity monitors
    std::vector<std::function<void()>> restore;         // put in/out args back
    std::vector<std::function<void()>> dirty;           // fill outputs with junk
    std::vector<std::function<void()>> save;            // remember outputs
    std::vector<std::function<void()>> cmp;             // compare outputs with remembered ones
    std::vector<std::string> tags;
    bool undef = false;                                 // set inside run() when the call reported failure: outputs are then unspecified

    explicit Ctx(uint64_t s) : rng(s) {}
    // sizes per tier
    int tail = 5;
    // heavy tail: a few cases take the sizes of the next tier
    long upto(long small, long quick, long thorough) { bool t = rng.chance(tail); return tier == 0 ? (t ? quick : small) : tier == 1 ? (t ? thorough : quick) : thorough; }   // for tables: never beyond the last entry
    long sz(long small, long quick, long thorough) { bool t = rng.chance(tail); return tier == 0 ? (t ? quick : small) : tier == 1 ? (t ? thorough : quick) : t ? thorough + thorough / 2 : thorough; }
    void fail(const std::string &m) { throw Fail{m}; }
    void check(bool c, const std::string &m) { checks++; if (!c) throw Fail{m}; }
    void tag(const std::string &t) { tags.push_back(t); }

    void clearReg() { verify.clear(); restore.clear(); dirty.clear(); save.clear(); cmp.clear(); }

    template <class T> Ctx &in(const char *name, const T &x) {
        if (mode == M_PURE) {
            auto c = std::make_shared<T>(x); const T *px = &x; std::string n = name; std::string o = op;
            verify.push_back([c, px, n]() { if (!(*c == *px)) throw Fail{"input argument modified: " + n}; });
        }
        return *this;
    }
    template <class T> Ctx &out(const char *name, T &x);
    template <class T> Ctx &inout(const char *name, T &x) {
        if (mode == M_PURE) {
            auto c = std::make_shared<T>(x); auto r = std::make_shared<T>(); T *px = &x; std::string n = name;
            restore.push_back([c, px]() { *px = *c; });
            save.push_back([r, px]() { *r = *px; });
            cmp.push_back([r, px, n]() { if (!(*r == *px)) throw Fail{"different result on repetition: " + n}; });
        }
        return *this;
    }
    // argument that the call may use as scratch space: restored before the repetition, contents afterwards unspecified
    template <class T> Ctx &scratch(const char *, T &x) {
        if (mode == M_PURE) { auto c = std::make_shared<T>(x); T *px = &x; restore.push_back([c, px]() { *px = *c; }); }
        return *this;
    }
    void run(const std::function<void()> &f);
};

extern void (*before_run)(Ctx &);   // set by the runner when replaying a single case
void perturb_history(Rng &r);   // installs other moduli, exercises NTL/library caches, restores modulus

// ---------------------------------------------------------------- registry
typedef void (*OpFn)(Ctx &);
struct Op { std::string prop, name; OpFn fn; long n0, n1, n2; };  // case counts per tier
std::vector<Op> &registry();
struct Reg { Reg(const char *p, const char *n, OpFn f, long n0, long n1, long n2) { registry().push_back(Op{p, n, f, n0, n1, n2}); } };
#define OP(prop, name, n0, n1, n2) \
    static void op_##name(Ctx &k); \
    static Reg reg_##name(prop, #name, op_##name, n0, n1, n2); \
    static void op_##name(Ctx &k)

// ---------------------------------------------------------------- modulus
extern bool twist;                  // setmod then takes another modulus of the same kind
long setmod(Ctx &k, int kinds);     // installs a random modulus among kinds, returns p, logs it
void setmod_p(long p);              // zz_p::init(p)

// ---------------------------------------------------------------- generators (use k.rng only)
zz_p rc(Rng &r);                    // random coefficient
zz_p rnz(Rng &r);
zz_pX rpoly(Rng &r, long len);      // deg < len (uniform)
zz_pX rpolyS(Rng &r, long len);     // structured: sometimes sparse/zero/monomial/lower degree
PV rvec(Rng &r, long n, long len);
PM rmat(Rng &r, long m, long n, long len);
PM rmatS(Rng &r, long m, long n, long len);   // structured degree patterns incl zero rows etc.
CV rcv(Rng &r, long n);
CM rcm(Rng &r, long m, long n);
CM rcm_rank(Rng &r, long m, long n, long rk);
CM rcm_inv(Rng &r, long n);         // invertible
PM rmat_unimod(Rng &r, long n, long deg);

// vectors u, v (length n >= 2, modulus >= 2^31) whose inner product over the integers is a multiple of one or two of the FFT primes used for CRT; false when impossible
bool crt_edge(Rng &r, CV &u, CV &v, long n);

// ---------------------------------------------------------------- normalisation checks
bool normalized(const zz_pX &f);
bool normalized(const PV &v);
bool normalized(const PM &m);
bool normalized(const CM &m);
bool normalized(const CV &m);

// ---------------------------------------------------------------- junk for dirty outputs
void junk(Rng &r, zz_p &x); void junk(Rng &r, zz_pX &x); void junk(Rng &r, PV &x); void junk(Rng &r, PM &x);
void junk(Rng &r, CV &x); void junk(Rng &r, CM &x); void junk(Rng &r, VL &x); void junk(Rng &r, long &x);
void junk(Rng &r, Vec<CM> &x);
void junk(Rng &r, Vec<CV> &x);
template <class T> void junk(Rng &, T &) {}

template <class T> Ctx &Ctx::out(const char *name, T &x) {
    Rng *pr = &rng; T *px = &x;
    bool doit = rng.chance(60);
    if (doit) junk(rng, x);
    if (mode == M_PURE) {
        auto r = std::make_shared<T>(); std::string n = name;
        dirty.push_back([pr, px]() { junk(*pr, *px); });
        save.push_back([r, px]() { *r = *px; });
        cmp.push_back([r, px, n]() { if (!(*r == *px)) throw Fail{"different result on repetition: " + n}; });
    }
    return *this;
}

// ---------------------------------------------------------------- reference arithmetic on NTL types
long rdeg(const PM &m);
long rdeg(const PV &m);
PM rmul(const PM &a, const PM &b);
PM rmul(const CM &a, const PM &b);
PM rmul(const PM &a, const CM &b);
PM radd(const PM &a, const PM &b);
PM rsub(const PM &a, const PM &b);
PM rtrunc(const PM &a, long n);
PM rslice(const PM &a, long lo, long len);   // coefficients lo..lo+len-1
PM rtransp(const PM &a);
PM rident(long n);
PM rzero(long m, long n);
CM reval(const PM &a, const zz_p &x);
CM rcoeff(const PM &a, long i);
CM rcmul(const CM &a, const CM &b);
CV rcmulv(const CM &a, const CV &v);
CV rvmulc(const CV &v, const CM &a);
bool rIsZero(const PM &a);
long rrank(const CM &a);
zz_p rdet(const CM &a);
zz_pX rdet(const PM &a);            // exact determinant (fraction-free Bareiss over k[x])
long rrank(const PM &a);            // rank over k(x), exact via Bareiss
bool same(const PM &a, const PM &b);   // dims + entries
bool same(const PV &a, const PV &b);
bool same(const CM &a, const CM &b);
bool same(const CV &a, const CV &b);
// Freivalds-type identity test A*B == C (one-sided: false means certainly different)
bool freivalds(Rng &r, const PM &a, const PM &b, const PM &c, int reps = 2);
std::string dims(const PM &a);
std::string show(const PM &a);      // short text dump
std::string show(const VL &a);
// ---------------------------------------------------------------- reduced forms, by definition
VL o_rdeg(const PM &a, const VL &sh);                       // shifted row degrees (min(shift)-1 for a zero row)
void o_pivots(VL &ind, VL &deg, const PM &a, const VL &sh);  // row-wise pivots
CM o_lmat(const PM &a, const VL &sh);                       // row-wise shifted leading matrix
long o_form(const PM &a, const VL &sh);                     // 0 none 1 reduced 2 weak Popov 3 ordered weak Popov 4 Popov
PM o_popov(const PM &owp, const VL &sh);                    // Popov form of a square matrix in ordered weak Popov form
// minimal bases computed one linear functional at a time; delta = pivot degrees of the (unique) shifted Popov basis
struct MinBasis { VL delta; long codim; PM P; };
MinBasis o_approx(const PM &F, const VL &order, const VL &sh, bool wantP);
MinBasis o_interp(const Vec<CM> &ev, const CV &pts, const VL &sh, bool wantP);
VL rshift(Rng &r, long n, int kind = -1, long scale = 10);   // random shift: zero, small, increasing, decreasing, Hermite-like, plateau, negative
PM gen_bas(Ctx &k, long m, long n, long len);   // generic, sparse, low rank, dependent modulo a power of x, ...
#define S(x) ([&]() -> std::string { std::ostringstream o_; o_ << x; return o_.str(); }())
#endif
