// Case runner: main --log F --tier T --mode M --seed S --shard i/n [--from POS] [--to POS] [--only op:idx] [--props P1,P2] [--scale F] [--budget SEC] [--cpu SEC] [--tail PERCENT of cases with the next sizes] [--list]
#include "common.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int logfd = 1;
static void emit(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(logfd, s.data() + o, s.size() - o); if (w <= 0) _exit(98); o += w; } }
static std::string esc(const std::string &s)
{
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static void on_cpu(int) { ssize_t w = write(logfd, "{\"t\":\"timeout\"}\n", 16); (void)w; _exit(88); }
static std::string ntl_msg;
static void msgcb(const char *s) { throw NtlErr{s ? s : ""}; }
static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

int main(int argc, char **argv)
{
    std::string log, only, props; int tier = 1, mode = 0; uint64_t seed = 1; int tail = 0; long shard = 0, nsh = 1, from = 0, upto = -1, cpu = 60; double scale = 1, budget = 1e9; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--log") log = nx(); else if (a == "--tier") tier = atoi(nx().c_str()); else if (a == "--mode") mode = atoi(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--shard") sscanf(nx().c_str(), "%ld/%ld", &shard, &nsh);
        else if (a == "--from") from = atol(nx().c_str()); else if (a == "--tail") tail = atoi(nx().c_str()); else if (a == "--to") upto = atol(nx().c_str()); else if (a == "--only") only = nx(); else if (a == "--props") props = nx();
        else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--cpu") cpu = atol(nx().c_str());
        else if (a == "--list") list = true;
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 97; }
    }
    std::vector<Op> ops = registry();
    std::sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.prop != b.prop ? a.prop < b.prop : a.name < b.name; });
    if (!props.empty()) { std::string q = "," + props + ","; std::vector<Op> o2; for (auto &o : ops) if (q.find("," + o.prop + ",") != std::string::npos) o2.push_back(o); ops = o2; }
    if (list) { for (auto &o : ops) printf("%s %s %ld %ld %ld\n", o.prop.c_str(), o.name.c_str(), o.n0, o.n1, o.n2); return 0; }
    if (!log.empty()) { logfd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (logfd < 0) { perror("log"); return 97; } }
    ErrorMsgCallback = msgcb;
    if (!only.empty()) before_run = [](Ctx &k) { emit(S("{\"t\":\"desc\",\"desc\":\"" << esc(k.d.str().substr(0, 600)) << "\"}\n")); };
    signal(SIGPROF, on_cpu);
    struct Item { double key; int op; long idx; };
    std::vector<Item> items;
    if (!only.empty()) {
        size_t c = only.find(':'); std::string on = only.substr(0, c); long ix = atol(only.c_str() + c + 1);
        for (size_t i = 0; i < ops.size(); i++) if (ops[i].name == on) items.push_back(Item{0, (int)i, ix});
        if (items.empty()) { fprintf(stderr, "no such op\n"); return 97; }
    } else {
        for (size_t i = 0; i < ops.size(); i++) {
            long n = tier == 0 ? ops[i].n0 : tier == 1 ? ops[i].n1 : ops[i].n2; if (n > 0) n = std::max(1L, (long)(n * scale));
            for (long x = 0; x < n; x++) items.push_back(Item{(x + 0.5) / n, (int)i, x});
        }
        std::stable_sort(items.begin(), items.end(), [](const Item &a, const Item &b) { return a.key < b.key; });
    }
    double t0 = now(); bool trunc = false; long nfail = 0;
    for (size_t pos = 0; pos < items.size(); pos++) {
        if ((long)(pos % nsh) != shard || (long)pos < from || (upto >= 0 && (long)pos > upto)) continue;
        if (now() - t0 > budget) { trunc = true; break; }
        const Op &o = ops[items[pos].op]; long ix = items[pos].idx;
        emit(S("{\"t\":\"start\",\"pos\":" << pos << ",\"prop\":\"" << o.prop << "\",\"op\":\"" << o.name << "\",\"idx\":" << ix << "}\n"));
        itimerval iv; memset(&iv, 0, sizeof iv); iv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &iv, 0);
        uint64_t cs = hash_str(S(seed << "|" << o.name << "|" << ix));
        Ctx k(cs); k.op = o.name; k.idx = ix; k.mode = mode; k.tier = tier; k.seed = seed; if (tail) k.tail = tail;
        ZZ sd; conv(sd, (long)(k.rng.next() >> 4));
        if (mode == M_PURE && only.empty() && cs % 2) {      // history: the very same case first runs for another modulus of the same kind; what comes out of that is not judged here
            Ctx s(cs); s.op = o.name; s.idx = ix; s.mode = M_NORMAL; s.tier = tier; s.seed = seed; s.rng.next();
            SetSeed(sd); twist = true;
            try { o.fn(s); } catch (Fail &) {} catch (NtlErr &) {} catch (Skip &) {} catch (std::exception &) {}
            twist = false;
        }
        SetSeed(sd);
        std::string fail; bool skip = false;
        double c0 = now();
        try { o.fn(k); if (k.mode == M_PURE) {} }
        catch (Fail &f) { fail = f.msg; }
        catch (NtlErr &f) { fail = "library error raised: " + f.msg; }
        catch (Skip &) { skip = true; }
        catch (std::exception &e) { fail = std::string("exception raised: ") + e.what(); }
        std::string ds = k.d.str();
        std::string tg; for (auto &t : k.tags) tg += (tg.empty() ? "" : ",") + t;
        if (!fail.empty()) { emit(S("{\"t\":\"fail\",\"prop\":\"" << o.prop << "\",\"op\":\"" << o.name << "\",\"idx\":" << ix << ",\"pos\":" << pos << ",\"msg\":\"" << esc(fail.substr(0, 1500)) << "\",\"desc\":\"" << esc(ds.substr(0, 600)) << "\"}\n")); if (++nfail >= 40) { trunc = true; break; } }
        else emit(S("{\"t\":\"" << (skip ? "skip" : "ok") << "\",\"op\":\"" << o.name << "\",\"checks\":" << k.checks << ",\"calls\":" << k.calls << ",\"nt\":" << (k.nontriv ? 1 : 0) << ",\"ms\":" << (long)((now() - c0) * 1000) << ",\"tags\":\"" << esc(tg) << "\",\"desc\":\"" << esc(ds.substr(0, 200)) << "\"}\n"));
    }
    itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
    emit(S("{\"t\":\"end\",\"truncated\":" << (trunc ? 1 : 0) << "}\n"));
    return 0;
}
