#!/usr/bin/env python3
"""check.py setup | check.py <ID> quick|thorough | check.py replay <file>"""
import collections, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import CHECKS, ALL_FILES

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(B.BUILD, "replay")
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
ENV["LSAN_OPTIONS"] = "exitcode=87:max_leaks=20"
ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:history_size=5:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "driver", "tsan.supp")
for v in ("VERIF_TIER",):
    ENV.pop(v, None)


def log(s):
    print(s, flush=True)


class Result:
    def __init__(self):
        self.fail = []      # dicts: prop, op, idx, msg, desc, kind
        self.ops = collections.OrderedDict()
        self.distinct = set()
        self.evals = self.checks = self.calls = self.skips = 0
        self.samples = []
        self.trunc = 0
        self.infra = []
        self.tags = collections.Counter()
        self.ms = collections.Counter()
        self.last = None
        self.mt = collections.Counter()


def parse_log(path, res, seen_ok=True):
    """returns (last unfinished start, ended, timeout)"""
    cur, ended, tmo = None, False, False
    if not os.path.exists(path):
        return None, False, False
    for line in open(path, errors="replace"):
        try:
            e = json.loads(line)
        except ValueError:
            continue
        t = e["t"]
        if t == "start":
            cur = res.last = e
        elif t in ("ok", "skip", "fail"):
            res.evals += 1
            o = res.ops.setdefault(e["op"], [0, 0, 0])
            o[0] += 1
            if t == "ok":
                res.checks += e["checks"]; res.calls += e["calls"]; o[1] += e["checks"]; o[2] += e["calls"]
                res.ms[e["op"]] += e["ms"]
                if e["nt"] and e["checks"] > 0:
                    res.distinct.add(hash(e["op"] + "|" + e["desc"]))
                for g in filter(None, e["tags"].split(",")):
                    res.tags[e["op"] + ":" + g] += 1
                if o[0] == 2 and len(res.samples) < 40:
                    res.samples.append({"op": e["op"], "case": e["desc"], "checks": e["checks"]})
            elif t == "skip":
                res.skips += 1
            else:
                e["kind"] = "wrong"
                res.fail.append(e)
            cur = None
        elif t == "timeout":
            tmo = True
        elif t == "mt":
            for kk in ("overlaps", "distinct_pairs"):
                res.mt[kk] += e[kk]
        elif t == "end":
            ended = True
            res.trunc += e["truncated"]
    return cur, ended, tmo


def crash_summary(err):
    t = err[-20000:]
    m = re.search(r"==\d+== ((?!Memcheck|Exit program)[A-Z][^\n]*)\n((?:==\d+== [^\n]*\n)*)", t)
    if m:       # valgrind
        fr = [re.sub(r"\(.*\) \(", " (", f) for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n]*)", m.group(2))]
        return "valgrind: " + m.group(1) + " at " + " < ".join(fr[:5])
    m = re.findall(r"(SUMMARY: [^\n]*|runtime error: [^\n]*|[^\n]*Assertion [^\n]*failed[^\n]*|ERROR: AddressSanitizer[^\n]*)", t)
    # frames of the library, which identify the defect
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\n ]*ntl-extras[^\n ]*)", t)
    s = "; ".join(m[:2])
    if fr:
        s += " at " + " < ".join("%s %s" % (re.sub(r"\(.*", "", f), re.sub(r".*ntl-extras/", "", loc).split(":")[0]) for f, loc in fr[:3])
    return s or t[-300:].replace("\n", " ")


RUNTIME = re.compile(r"libtsan|libstdc\+\+|libc\.so|libgcc|sanitizer/|/usr/include/c\+\+")


def tsan_reports(err):
    """reports with a frame of the library in one of the stacks, one per set of places; accesses made inside libntl.so itself (not instrumented,
    synchronised by atomics the sanitizer cannot see) cannot be judged and are only counted"""
    out = collections.OrderedDict()
    for blk in re.split(r"^={10,}$", err, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", blk)
        if not m:
            continue
        body = re.split(r"\n\s*(?:Location is|Thread T\d+ .*created by|Mutex M)", blk)[0]
        stacks = [re.findall(r"^\s+#\d+ (.*)$", st, re.M) for st in re.split(r"\n\s*\n", body)]
        tops = [next((f for f in st if not RUNTIME.search(f)), "") for st in stacks if st]
        fr = [f for st in stacks for f in st if "ntl-extras/" in f]
        if not fr or any("libntl" in t for t in tops):
            out[None] = blk
            continue
        key = (m.group(1).strip(), tuple(dict.fromkeys(re.sub(r".*ntl-extras/(\S*).*", r"\1", f) for f in fr))[:4])
        out.setdefault(key, blk)
    return out


def limit_as(gb):
    return (lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))) if gb else None


def run_shards(exe, args, nsh, tmp, res, wrap=None, budget=300, cpu=60, maxcrash=5, gb=0, wrap_tsan=False):
    procs, hangs = {}, collections.Counter()

    def launch(i, frm, att):
        lg = os.path.join(tmp, "log-%d-%d" % (i, att)); er = os.path.join(tmp, "err-%d-%d" % (i, att))
        cmd = (wrap or []) + [exe, "--log", lg, "--shard", "%d/%d" % (i, nsh), "--from", str(frm), "--budget", str(budget), "--cpu", str(cpu)] + args
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(er, "wb"), env=ENV, cwd=tmp, preexec_fn=limit_as(gb))
        procs[i] = (p, lg, er, att, time.time())

    for i in range(nsh):
        launch(i, 0, 0)
    while procs:
        time.sleep(0.05)
        for i in list(procs):
            p, lg, er, att, t0 = procs[i]
            rc = p.poll()
            if rc is None:
                quiet = time.time() - (os.path.getmtime(lg) if os.path.exists(lg) else t0)
                if quiet > 4 * cpu + 60:      # blocked without using CPU
                    p.kill(); hangs["blocked", i] += 1
                continue
            del procs[i]
            res.last = None
            cur, ended, tmo = parse_log(lg, res)
            err = open(er, errors="replace").read()
            if rc == 0 and ended:
                continue
            if rc in (97, 98, 99):
                res.infra.append("harness exit %d: %s" % (rc, err[-500:])); continue
            if wrap_tsan and "FATAL: ThreadSanitizer" in err and not ended:
                res.infra.append("thread sanitizer cannot start: " + err[-300:]); continue
            if wrap_tsan and not ended and (rc < 0 or rc == 66):
                res.fail.append(dict(prop="C25", op="<threads>", idx=i, pos=-1, kind="exit", msg="process died with concurrent threads, rc=%d: %s" % (rc, crash_summary(err)), desc="shard %d/%d" % (i, nsh), err=err[-6000:]))
                continue
            if wrap_tsan and ended:
                for key, blk in tsan_reports(err).items():
                    if key is None:
                        res.mt["unjudged_reports_inside_libntl"] += 1; continue
                    res.fail.append(dict(prop="C25", op="<race>", idx=i, pos=-1, kind="exit", msg="%s: %s" % (key[0], " / ".join(key[1])), desc="shard %d/%d" % (i, nsh), err=blk[:6000]))
                continue
            if ended:   # leak report / sanitizer exit code at process end
                res.fail.append(dict(prop=None, op="<exit>", idx=i, pos=-1, kind="exit", msg="rc=%d %s" % (rc, crash_summary(err)), desc="shard %d/%d" % (i, nsh), err=err[-6000:]))
                continue
            if cur is None and rc in (-6, -11, -7, -8, -4, 86) and res.last:      # heap corrupted by an earlier call and noticed between two cases
                cur = res.last
            if cur is None:
                res.infra.append("harness died outside a case rc=%d %s" % (rc, err[-500:])); continue
            kind = "hang" if (tmo or rc == 88 or hangs["blocked", i]) else "crash"
            msg = "no result within the CPU limit of %d s" % cpu if kind == "hang" else "process died, rc=%d: %s" % (rc, crash_summary(err))
            res.fail.append(dict(prop=cur["prop"], op=cur["op"], idx=cur["idx"], pos=cur["pos"], kind=kind, msg=msg, desc="", err=err[-6000:]))
            res.evals += 1
            hangs[i] += kind == "hang"
            if att < maxcrash and hangs[i] < 2:
                launch(i, cur["pos"] + 1, att + 1)


def rerun_one(exe, args, op, idx, tmp, wrap=None, cpu=120, gb=0, select=None):
    lg = os.path.join(tmp, "one-%s-%d" % (op, idx)); er = lg + ".err"
    cmd = (wrap or []) + [exe, "--log", lg] + (select or ["--only", "%s:%d" % (op, idx)]) + ["--cpu", str(cpu)] + args
    with open(er, "wb") as e:
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, env=ENV, cwd=tmp, preexec_fn=limit_as(gb), timeout=4 * cpu + 60).returncode
        except subprocess.TimeoutExpired:
            rc = 88
    r = Result(); cur, ended, tmo = parse_log(lg, r)
    ds = [json.loads(l)["desc"] for l in open(lg, errors="replace") if l.startswith('{"t":"desc"')] if os.path.exists(lg) else []
    desc = ds[-1] if ds else ""
    err = open(er, errors="replace").read()
    if r.fail:
        return "wrong", r.fail[0]["msg"], r.fail[0]["desc"], err
    if rc == 88 or tmo:
        return "hang", "no result within %d s CPU" % cpu, desc, err
    if rc != 0:
        return "crash", "process died, rc=%d: %s" % (rc, crash_summary(err)), desc, err
    return None, "", "", err


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    ks = json.load(open(p)) if os.path.exists(p) else []
    return [k for k in ks if k.get("status") == "known" and k["property"] == pid]


def match_known(known, f):
    for k in known:
        if re.fullmatch(k["op"], f["op"]) and re.search(k["match"], f["kind"] + " " + f["msg"] + " | " + f.get("desc", ""), re.S):
            return k
    return None


def judged(run, f):
    """kinds of failure this run decides on; a wrong answer can be selected by its message"""
    if not run.get("only_kinds") or f["kind"] in run["only_kinds"]:
        return True
    return bool(run.get("only_msg") and re.search(run["only_msg"], f["msg"]))


def do_check(pid, tier):
    t0 = time.time()
    cfg = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    known = load_known(pid)
    violations, khits, runs_info = [], collections.OrderedDict(), []
    total = Result()
    scratch = tempfile.mkdtemp(prefix="verif-")
    rc = 0
    try:
        for n, run in enumerate(cfg[tier]):
            if run.get("wrap") and subprocess.run(run["wrap"] + ["/bin/true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                log("NOTE: %s does not work here, this part is left out" % run["wrap"][0]); runs_info.append(dict(variant=run["variant"], left_out=run["wrap"][0] + " does not work here")); continue
            files = run.get("files", cfg.get("files"))
            if files == "ALL":
                files = ALL_FILES
            exe = B.build(run["variant"], files + ["common", "perturb", run.get("main", "main")], run.get("exe", pid + "-" + run["variant"]), log)
            args = ["--tier", str(run.get("tier", 1)), "--mode", str(run.get("mode", 0)), "--seed", str(seed + run.get("seedoff", 0)), "--scale", str(run.get("scale", 1) * float(os.environ.get("VERIF_SCALE", "1")))]
            if run.get("props"):
                args += ["--props", run["props"]]
            args += run.get("args", [])
            tmp = os.path.join(scratch, str(n)); os.makedirs(tmp)
            res = Result()
            nsh = run.get("shards", os.cpu_count() or 8)
            r0 = time.time()
            cpu = run.get("cpu", 20)
            gb = 3 if run["variant"] == "opt" else 0
            run_shards(exe, args, nsh, tmp, res, wrap=run.get("wrap"), budget=run.get("budget", 300), cpu=cpu, gb=gb, wrap_tsan=run["variant"] == "tsan")
            if res.infra:
                log("INFRASTRUCTURE ERROR: " + " | ".join(res.infra[:3])); return 2
            seen, nhang = collections.Counter(), 0
            for f in res.fail:
                if not judged(run, f) and not (run.get("history") and f["kind"] == "wrong"):
                    continue     # e.g. the sanitizer property judges crashes and reports, not wrong answers
                if seen[(f["op"], f["kind"])] >= (1 if f["kind"] == "hang" else 6):
                    continue
                if f["kind"] == "hang":
                    nhang += 1
                    if nhang > 3:
                        continue
                seen[(f["op"], f["kind"])] += 1
                if f["kind"] != "exit":
                    k2, m2, d2, e2 = rerun_one(exe, args, f["op"], f["idx"], tmp, run.get("wrap"), cpu=2 * cpu, gb=gb)
                    f["reproduced_alone"] = bool(k2)
                    if f["kind"] == "hang" and k2 is None:
                        continue
                    if not judged(run, f):       # history: a wrong answer that the very same case does not give in a process of its own
                        if k2:
                            total.mt["cases_failing_alone_too"] += 1
                            continue
                        f["msg"] = "only after other calls in the same process: " + f["msg"]
                    if k2 and run.get("alone_ok"):
                        total.mt["cases_failing_without_concurrency_too"] += 1
                        continue     # not a matter of concurrency: other properties decide it
                    if k2:
                        f["msg"], f["kind"] = m2, k2
                        f["desc"] = d2 or f["desc"]
                        f["err"] = e2[-6000:] or f.get("err", "")
                    if not judged(run, f) and not f["msg"].startswith("only after other calls"):
                        continue
                kf = match_known(known, f)
                if kf:
                    khits.setdefault(kf["what"], 0); khits[kf["what"]] += 1
                    continue
                os.makedirs(REPLAY, exist_ok=True)
                rp = os.path.join(REPLAY, "%s-%s-%s.json" % (pid, re.sub(r"\W", "", f["op"]), f["idx"]))
                f.update(property=pid, run={k: v for k, v in run.items()}, args=args, how="python3 driver/check.py replay " + rp)
                json.dump(f, open(rp, "w"), indent=1)
                violations.append((f, rp))
            runs_info.append(dict(variant=run["variant"] + (" under " + run["wrap"][0] if run.get("wrap") else ""), tier=run.get("tier", 1), mode=run.get("mode", 0), cases=res.evals, checks=res.checks, library_calls=res.calls,
                                  skipped_outside_domain=res.skips, shards=nsh, truncated_shards=res.trunc, seconds=round(time.time() - r0, 1)))
            total.evals += res.evals; total.checks += res.checks; total.calls += res.calls; total.skips += res.skips
            total.mt.update(res.mt)
            total.distinct |= res.distinct; total.samples += res.samples; total.tags.update(res.tags); total.ms.update(res.ms)
            for o, v in res.ops.items():
                w = total.ops.setdefault(o, [0, 0, 0])
                for j in range(3):
                    w[j] += v[j]
            if violations and len(violations) > 20:
                break
    except B.InfraError as e:
        log("INFRASTRUCTURE ERROR: " + str(e)); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = dict(evaluations=total.evals, distinct_nontrivial=len(total.distinct),
               rule=cfg.get("rule", "cases are drawn per operation from VERIF_SEED; a case counts as distinct and non-trivial when its description (modulus, dimensions, degrees, variant) is new, it is not marked degenerate, and at least one oracle comparison was made on it"),
               samples=total.samples[:12], oracle_comparisons=total.checks, monitored_library_calls=total.calls,
               per_operation={o: dict(cases=v[0], comparisons=v[1], calls=v[2], ms=total.ms[o]) for o, v in total.ops.items()},
               observed_classes=dict(total.tags.most_common(150)), runs=runs_info,
               known_findings_seen=dict(khits), violations=len(violations))
    if total.mt:
        cov["concurrency"] = dict(total.mt)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 1))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for k in known:
        if k["what"] in khits or k.get("always", True):
            log("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k["what"] in khits else " (not exercised by this run)"))
    shown = collections.Counter()
    for f, rp in violations:
        shown[f["op"]] += 1
        if shown[f["op"]] > 2 or sum(shown.values()) > 12:
            continue
        log("VIOLATION property=%s replay=%s op=%s case=%s kind=%s :: %s [%s]" % (pid, rp, f["op"], f["idx"], f["kind"], f["msg"][:400].replace("\n", " "), f.get("desc", "")[:200]))
    log("%s %s: %d cases, %d distinct non-trivial, %d comparisons, %d monitored calls, %d skipped, %d violations, %.0fs" % (pid, tier, total.evals, len(total.distinct), total.checks, total.calls, total.skips, len(violations), time.time() - t0))
    return 1 if violations else 0


def replay(path):
    f = json.load(open(path)); run = f["run"]; cfg = CHECKS[f["property"]]
    files = run.get("files", cfg.get("files"))
    if files == "ALL":
        files = ALL_FILES
    exe = B.build(run["variant"], files + ["common", "perturb", run.get("main", "main")], run.get("exe", f["property"] + "-" + run["variant"]), log)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if f["msg"].startswith("only after other calls"):      # the calls of the shard up to this case
            nsh = run.get("shards", os.cpu_count() or 8)
            k, m, d, e = rerun_one(exe, f["args"], f["op"], f["idx"], tmp, run.get("wrap"), cpu=600, select=["--shard", "%d/%d" % (f["pos"] % nsh, nsh), "--to", str(f["pos"])])
        else:
            k, m, d, e = rerun_one(exe, f["args"], f["op"], f["idx"], tmp, run.get("wrap"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log("%s: %s\n%s\n%s" % (k or "passes", m, d, e[-3000:] if k else ""))
    return 1 if k else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "setup":
        log("nothing to install; every check builds what it needs from " + B.REPO)
        return 0 if B.modules() else 2
    if a[0] == "replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if a[0] not in CHECKS or tier not in ("quick", "thorough"):
        print(__doc__); return 2
    return do_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
