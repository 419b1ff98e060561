// Concurrent runner (thread sanitizer build): every thread owns its modulus and objects and runs cases of the whole harness next to the others;
// in "shared" rounds the threads also read the same matrices and evaluation objects.  --only op:idx runs one case alone, in one thread.
// Threads write separate logs and meet only at the barrier between rounds, so that the harness adds no ordering inside a round.
#include "common.h"
#include "lzz_pX_CRT.h"
#include "lzz_p_extra.h"
#include "mat_lzz_pX_extra.h"
#include "structured_lzz_p.h"
#include "structured_lzz_pX.h"
#include <atomic>
#include <condition_variable>
#include <fcntl.h>
#include <mutex>
#include <thread>
#include <time.h>
#include <unistd.h>
PML_CLIENT

static int logfd = 1;
static std::string esc(const std::string &s)
{
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static void put(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(fd, s.data() + o, s.size() - o); if (w <= 0) _exit(98); o += w; } }
static void msgcb(const char *s) { throw NtlErr{s ? s : ""}; }
static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct Barrier {
    std::mutex m; std::condition_variable c; long n, in = 0, gen = 0;
    explicit Barrier(long n_) : n(n_) {}
    void wait() { std::unique_lock<std::mutex> l(m); long g = gen; if (++in == n) { in = 0; gen++; c.notify_all(); } else c.wait(l, [&] { return g != gen; }); }
};
struct Span { int op; double a, b; };

static std::string run_case(const Op &o, long ix, uint64_t seed, int tier, int mode)
{
    Ctx k(hash_str(S(seed << "|" << o.name << "|" << ix))); k.op = o.name; k.idx = ix; k.mode = mode; k.tier = tier; k.seed = seed; if (ix >= 100000) k.tail = 25;
    { ZZ sd; conv(sd, (long)(k.rng.next() >> 4)); SetSeed(sd); }
    std::string fail; bool skip = false;
    try { o.fn(k); }
    catch (Fail &f) { fail = f.msg; }
    catch (NtlErr &f) { fail = "library error raised: " + f.msg; }
    catch (Skip &) { skip = true; }
    catch (std::exception &e) { fail = std::string("exception raised: ") + e.what(); }
    std::string ds = k.d.str(), tg;
    for (auto &t : k.tags) tg += (tg.empty() ? "" : ",") + t;
    if (!fail.empty()) return S("{\"t\":\"fail\",\"prop\":\"" << o.prop << "\",\"op\":\"" << o.name << "\",\"idx\":" << ix << ",\"pos\":0,\"msg\":\"" << esc(fail.substr(0, 1500)) << "\",\"desc\":\"" << esc(ds.substr(0, 600)) << "\"}\n");
    return S("{\"t\":\"" << (skip ? "skip" : "ok") << "\",\"op\":\"" << o.name << "\",\"checks\":" << k.checks << ",\"calls\":" << k.calls << ",\"nt\":" << (k.nontriv ? 1 : 0) << ",\"ms\":0,\"tags\":\"" << esc(tg) << "\",\"desc\":\"" << esc(ds.substr(0, 200)) << "\"}\n");
}

// one thread's work on objects shared by all threads, through read-only (const) operations: every result must equal the one
// thread 0 gets alone afterwards, and the product must equal the reference product
struct Shared {
    zz_pContext ctx; PM A, B, M, R; CM c0; VL shift, order; zz_pX f; CV x, pts; PV moduli;
    std::unique_ptr<zz_pX_Multipoint_Geometric> geo; std::unique_ptr<zz_pX_Multipoint_General> gen; std::unique_ptr<zz_pX_Multipoint_FFT> fft; std::unique_ptr<zz_pX_CRT> crt; std::unique_ptr<zz_pX_Transform> tr;
    std::unique_ptr<toeplitz_lzz_p> toe; std::unique_ptr<hankel_lzz_p> han; std::unique_ptr<toeplitz_like_minus_lzz_p> tlm; std::unique_ptr<mosaic_toeplitz_lzz_p> mos; std::unique_ptr<sylvester_lzz_p> syl; std::unique_ptr<sylvester_lzz_pX> sylX; std::unique_ptr<cauchy_geometric_lzz_p> cau;
};
struct Dig { uint64_t h = 1469598103934665603ULL; void a(uint64_t x) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } };
static void dig(Dig &d, long x) { d.a((uint64_t)x); }
static void dig(Dig &d, const zz_p &x) { d.a((uint64_t)rep(x)); }
static void dig(Dig &d, const zz_pX &f) { d.a(f.rep.length()); for (long i = 0; i < f.rep.length(); i++) dig(d, f.rep[i]); }
static void dig(Dig &d, const VL &v) { d.a(v.size()); for (long x : v) dig(d, x); }
template <class T> static void dig(Dig &d, const Vec<T> &v) { d.a(v.length()); for (long i = 0; i < v.length(); i++) dig(d, v[i]); }
template <class T> static void dig(Dig &d, const Mat<T> &v) { d.a(v.NumRows()); d.a(v.NumCols()); for (long i = 0; i < v.NumRows(); i++) for (long j = 0; j < v.NumCols(); j++) dig(d, v[i][j]); }
struct Out { std::vector<uint64_t> h; PM C; std::string err; };
static void share_make(Shared &s, uint64_t seed)
{
    Rng r(seed); int w = r.below(3);
    if (w == 0) zz_p::FFTInit(r.below(3)); else if (w == 1) zz_p::UserFFTInit(998244353); else zz_p::init(NextPrime((1L << 45) + r.below(1L << 44)));
    s.ctx.save();
    long m = r.in(1, 4), n = r.in(1, 4), l = r.in(1, 40);
    s.A = rmat(r, m, n, l); s.B = rmat(r, n, r.in(1, 4), r.in(1, 40)); s.shift = rshift(r, m); s.f = rpoly(r, 24); s.M = rmat(r, 3, 3, r.in(1, 8)); s.R = rmat(r, m, r.in(1, 3), l); s.order = VL(n, 5);
    zz_p q; element_of_order(q, 100); s.geo.reset(new zz_pX_Multipoint_Geometric(q, 24));
    s.pts.SetLength(24); for (long i = 0; i < 24; i++) s.pts[i] = to_zz_p(3 * i + 1); s.gen.reset(new zz_pX_Multipoint_General(s.pts)); s.x = rcv(r, 24);
    if (w != 2) s.fft.reset(new zz_pX_Multipoint_FFT(32));
    s.moduli.SetLength(4); for (long i = 0; i < 4; i++) { s.moduli[i] = 0; SetCoeff(s.moduli[i], 0, to_zz_p(-(5 * i + 2))); SetCoeff(s.moduli[i], 1, 1); for (long e = 1; e <= i; e++) { zz_pX l; SetCoeff(l, 1, 1); SetCoeff(l, 0, to_zz_p(-(5 * i + 2 + e))); s.moduli[i] *= l; } } s.crt.reset(new zz_pX_CRT(s.moduli));
    s.tr.reset(new zz_pX_Transform_karatsuba4()); s.toe.reset(new toeplitz_lzz_p(rcv(r, 24 + 9 - 1), 9, 24)); s.han.reset(new hankel_lzz_p(rcv(r, 24 + 11 - 1), 11, 24));
    CM G, H; G.SetDims(10, 2); H.SetDims(24, 2); for (long i = 0; i < 24; i++) for (long j = 0; j < 2; j++) { H[i][j] = rc(r); if (i < 10) G[i][j] = rc(r); } s.tlm.reset(new toeplitz_like_minus_lzz_p(G, H));
    Vec<Vec<toeplitz_lzz_p>> bl; bl.SetLength(2); for (long i = 0; i < 2; i++) { bl[i].SetLength(2); for (long j = 0; j < 2; j++) bl[i][j] = toeplitz_lzz_p(rcv(r, 4 + 12 - 1), 4, 12); } s.mos.reset(new mosaic_toeplitz_lzz_p(bl));
    zz_pX a = rpoly(r, 13), b = rpoly(r, 13); SetCoeff(a, 12, 1); SetCoeff(b, 12, 1); s.syl.reset(new sylvester_lzz_p(a, b));
    PV pa = rvec(r, 4, 5), pb = rvec(r, 3, 5); SetCoeff(pa[3], 0, 1); SetCoeff(pb[2], 0, 1); s.sylX.reset(new sylvester_lzz_pX(pa, pb));
    zz_p rho = q * q; s.cau.reset(new cauchy_geometric_lzz_p(to_zz_p(1), power(rho, 40), rho, 7, 5));
}
typedef void (*ShareOp)(const Shared &, Dig &, Out &);
struct NamedOp { const char *n; ShareOp f; };
#define SO(n, ...) {n, [](const Shared &s, Dig &d, Out &o) { (void)o; (void)s; __VA_ARGS__ }}
static const NamedOp share_ops[] = {
    SO("multiply", multiply(o.C, s.A, s.B); dig(d, o.C);),
    SO("pmbasis", PM P; VL sh(s.shift); pmbasis(P, s.A, 5, sh); dig(d, P); dig(d, sh);),
    SO("mbasis", PM P; VL sh(s.shift); mbasis(P, s.A, 4, sh); dig(d, P); dig(d, sh);),
    SO("popov_pmbasis", PM P; VL sh(s.shift); popov_pmbasis(P, s.A, 5, sh); dig(d, P);),
    SO("transpose", PM P; transpose(P, s.A); dig(d, P);),
    SO("middle_product", PM P; middle_product(P, s.A, s.B, std::max(0L, deg(s.A)), std::max(0L, deg(s.B))); dig(d, P);),
    SO("row_degree", VL v; row_degree(v, s.A); dig(d, v); v = row_degree(transpose(s.A), s.shift); dig(d, v); v = col_degree(s.A); dig(d, v);),
    SO("pivots", VL a, b; row_pivots(a, b, s.A); dig(d, a); dig(d, b);),
    SO("forms", dig(d, (long)is_row_reduced(s.M)); dig(d, (long)is_row_popov(s.M)); dig(d, (long)is_row_weak_popov(s.M)); dig(d, (long)get_row_polmatform(s.M));),
    SO("eval", CM c; eval(c, s.A, to_zz_p(7)); dig(d, c);),
    SO("trunc", PM P; trunc(P, s.A, 3); dig(d, P); P = s.A >> 2; dig(d, P); P = s.A << 3; dig(d, P);),
    SO("add", PM P; add(P, s.A, s.A); dig(d, P); sub(P, P, s.A); dig(d, P); PML::negate(P, s.A); dig(d, P);),
    SO("coeff", CM c; GetCoeff(c, s.A, 1); dig(d, c); dig(d, reverse(s.A));),
    SO("kernel", PM K; VL sh(s.shift); kernel_basis(K, s.A, sh); dig(d, K.NumRows()); dig(d, same(rmul(K, s.A), rmul(K, s.A)) ? 1L : 0L); dig(d, rzero(K.NumRows(), s.A.NumCols()) == rmul(K, s.A) ? 1L : 0L);),
    SO("determinant", zz_pX x; determinant_via_evaluation_general(x, s.M); dig(d, x); determinant_expansion_by_minors(x, s.M); dig(d, x);),
    SO("multiply_evaluate", PM P; multiply_evaluate_dense(P, s.A, s.B); dig(d, P); multiply_evaluate_geometric(P, s.A, s.B); dig(d, P); multiply_naive(P, s.A, s.B); dig(d, P); multiply_3_primes(P, s.A, s.B); dig(d, P);),
    SO("multiply_transform", PM P; multiply_transform(P, s.A, s.B); dig(d, P);),
    SO("lmultiplier", auto m = get_lmultiplier(s.A, std::max(0L, deg(s.B))); PM P; m->multiply(P, s.B); dig(d, P);),
    SO("geometric", CV v; s.geo->evaluate(v, s.f); dig(d, v); zz_pX g; s.geo->t_evaluate(g, s.x); dig(d, g); s.geo->mul_right(v, s.x); dig(d, v); s.geo->mul_left(v, s.x); dig(d, v);),
    SO("general", CV v; s.gen->evaluate(v, s.f); dig(d, v); zz_pX g; s.gen->t_evaluate(g, s.x); dig(d, g);),
    SO("fft", if (s.fft) { CV v; s.fft->evaluate(v, s.f); dig(d, v); Vec<CM> m; PM P; trunc(P, s.A, 32); s.fft->evaluate_matrix(m, P); dig(d, m); }),
    SO("crt", PV v; s.crt->multimod(v, s.f); dig(d, v); zz_pX g; s.crt->combine(g, v); dig(d, g); s.crt->master(g); dig(d, g);),
    SO("transform", CV u; CV v; s.tr->forward_left(u, trunc(s.f, 4)); s.tr->forward_right(v, trunc(s.f, 4)); for (long i = 0; i < u.length(); i++) u[i] *= v[i]; zz_pX g; s.tr->backward(g, u); dig(d, g);),
    SO("toeplitz", CV v; s.toe->mul_right(v, s.x); dig(d, v); CM c; s.toe->to_dense(c); dig(d, c); v.SetLength(9); for (long i = 0; i < 9; i++) v[i] = s.x[i]; CV u; s.toe->mul_left(u, v); dig(d, u);),
    SO("hankel", CV v; s.han->mul_right(v, s.x); dig(d, v); CM c; s.han->to_dense(c); dig(d, c);),
    SO("toeplitz_like", CV v; s.tlm->mul_right(v, s.x); dig(d, v); CM c; s.tlm->to_dense(c); dig(d, c);),
    SO("mosaic", CV v; s.mos->mul_right(v, s.x); dig(d, v); CM c; CM e; s.mos->phi_plus_generators(c, e); dig(d, c); dig(d, e);),
    SO("sylvester", CV v; s.syl->mul_right(v, s.x); dig(d, v); s.syl->mul_left(v, s.x); dig(d, v);),
    SO("sylvester_pX", PV v; v.SetLength(5); for (long i = 0; i < 5; i++) v[i] = trunc(s.f, i + 1); PV u; s.sylX->mul_right(u, v); dig(d, u); s.sylX->mul_left_trunc(u, v, 3); dig(d, u);),
    SO("cauchy", CV v; v.SetLength(5); for (long i = 0; i < 5; i++) v[i] = s.x[i]; CV u; s.cau->mul_right(u, v); dig(d, u);),
};
static const int NSH = sizeof(share_ops) / sizeof(share_ops[0]);
static void share_use(const Shared &s, Out &o, Rng &r)
{
    s.ctx.restore(); o.h.assign(NSH, 0);
    std::vector<int> perm(NSH); for (int i = 0; i < NSH; i++) perm[i] = i; for (int i = NSH - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
    for (int x : perm) { Dig d; try { ZZ sd; conv(sd, x + 17L); SetSeed(sd); share_ops[x].f(s, d, o); o.h[x] = d.h; } catch (NtlErr &e) { o.err = S(share_ops[x].n << ": library error " << e.msg); } catch (std::exception &e) { o.err = S(share_ops[x].n << ": exception " << e.what()); } }
}

int main(int argc, char **argv)
{
    std::string log, only; int tier = 0, mode = 0; uint64_t seed = 1; long shard = 0, nsh = 1, from = 0, cpu = 60, T = 6; double scale = 1, budget = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--log") log = nx(); else if (a == "--tier") tier = atoi(nx().c_str()); else if (a == "--mode") mode = atoi(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--shard") sscanf(nx().c_str(), "%ld/%ld", &shard, &nsh);
        else if (a == "--from") from = atol(nx().c_str()); else if (a == "--only") only = nx(); else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--cpu") cpu = atol(nx().c_str()); else if (a == "--threads") T = atol(nx().c_str());
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 97; }
    }
    std::vector<Op> ops = registry();
    std::sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.prop != b.prop ? a.prop < b.prop : a.name < b.name; });
    if (!log.empty()) { logfd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (logfd < 0) { perror("log"); return 97; } }
    if (!only.empty()) {
        ErrorMsgCallback = msgcb; size_t c = only.find(':'); long ix = atol(only.c_str() + c + 1);
        for (auto &o : ops) if (o.name == only.substr(0, c)) put(logfd, run_case(o, ix, seed, tier, mode));
        put(logfd, "{\"t\":\"end\",\"truncated\":0}\n"); return 0;
    }
    (void)from; (void)cpu;
    // round plan, fixed by the seed: the first 2 * #ops rounds concentrate on one operation each, then mixed rounds
    long nops = ops.size(), rounds = std::max(4L, (long)(scale * nops)), per = 6;
    Rng pr(hash_str(S("plan" << seed << "|" << shard)));
    std::vector<long> order(nops); for (long i = 0; i < nops; i++) order[i] = i; for (long i = nops - 1; i > 0; i--) std::swap(order[i], order[pr.below(i + 1)]);
    std::vector<std::string> logs(T); std::vector<std::vector<Span>> spans(T); std::vector<Out> outs(T); Barrier bar(T); std::vector<std::string> sharedlog(1); std::atomic<bool> stop(false); bool trunc = false;
    double t0 = now(); Shared *sh = 0; zz_pContext keep;
    auto body = [&](long t) {
        ErrorMsgCallback = msgcb;
        for (long rd = 0; rd < rounds; rd++) {
            bool shared_round = rd % 5 == 4;
            if (t == 0) { if (now() - t0 > budget) { stop = true; trunc = true; } if (shared_round) { delete sh; sh = new Shared; share_make(*sh, hash_str(S("sh" << seed << "|" << shard << "|" << rd))); } }
            bar.wait();
            if (stop) break;
            Rng r(hash_str(S(seed << "|" << shard << "|" << rd << "|" << t)));
            for (long c = 0; c < per; c++) {
                if (shared_round && c == 0) { Rng q = r; outs[t] = Out(); share_use(*sh, outs[t], q); continue; }
                // in most rounds all threads work on the same operation; first on the very same cases (same branches, at the same time), then on others
                bool focus = rd < 2 * nops && c < (tier ? 4 : 2), common = focus && c < (tier ? 3 : 1);
                long oi = focus ? order[rd % nops] : r.below(nops), ix = common ? 100000 + Rng(hash_str(S("common" << seed << "|" << shard << "|" << rd << "|" << c))).below(100000) : r.below(100000);
                if (r.chance(25)) usleep(r.below(400));      // shift the phases against each other
                double a = now();
                logs[t] += run_case(ops[oi], ix, seed, tier, mode);
                spans[t].push_back(Span{(int)oi, a, now()});
                if (logs[t].size() > 1 << 16) { put(logfd, logs[t]); logs[t].clear(); }
            }
            bar.wait();
            if (t == 0 && shared_round) {
                sh->ctx.restore(); std::string bad; PM want = rmul(sh->A, sh->B); long checks = 0;
                Out alone; { Rng q(rd); share_use(*sh, alone, q); } if (!alone.err.empty()) bad = alone.err;
                for (long u = 0; u < T && bad.empty(); u++) { Out &o = outs[u]; checks += NSH + 1; if (!o.err.empty()) bad = o.err; else if (!same(o.C, want)) bad = "product"; for (int x = 0; x < NSH && bad.empty(); x++) if (o.h[x] != alone.h[x]) bad = share_ops[x].n; }
                if (!bad.empty()) logs[0] += S("{\"t\":\"fail\",\"prop\":\"C25\",\"op\":\"shared_objects\",\"idx\":" << rd << ",\"pos\":0,\"msg\":\"threads reading the same objects got different results: " << bad << "\",\"desc\":\"round " << rd << " shard " << shard << "\"}\n");
                else logs[0] += S("{\"t\":\"ok\",\"op\":\"shared_objects\",\"checks\":" << checks << ",\"calls\":" << NSH * T << ",\"nt\":1,\"ms\":0,\"tags\":\"\",\"desc\":\"round " << rd << " shard " << shard << " A=" << dims(sh->A) << "\"}\n");
                for (auto &o : outs) o = Out();
            }
        }
    };
    std::vector<std::thread> th; for (long t = 0; t < T; t++) th.emplace_back(body, t);
    for (auto &x : th) x.join();
    delete sh;
    for (auto &l : logs) put(logfd, l);
    // pairs of operations that really ran at the same time in two threads
    std::vector<char> pair(nops * nops); long overlaps = 0, distinct = 0;
    for (long t = 0; t < T; t++) for (long u = t + 1; u < T; u++) { size_t j = 0; for (auto &x : spans[t]) { while (j < spans[u].size() && spans[u][j].b < x.a) j++; for (size_t q = j; q < spans[u].size() && spans[u][q].a < x.b; q++) { overlaps++; int a = std::min(x.op, spans[u][q].op), b = std::max(x.op, spans[u][q].op); if (!pair[a * nops + b]) { pair[a * nops + b] = 1; distinct++; } } } }
    put(logfd, S("{\"t\":\"mt\",\"overlaps\":" << overlaps << ",\"distinct_pairs\":" << distinct << ",\"threads\":" << T << "}\n{\"t\":\"end\",\"truncated\":" << (trunc ? 1 : 0) << "}\n"));
    return 0;
}
