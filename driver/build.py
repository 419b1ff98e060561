"""Builds the library from /repo's working tree and the harness from /verif, with a content-addressed object cache."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NX = os.path.join(REPO, "ntl-extras")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: (compiler, library flags, harness flags, link flags)
    "opt": ("g++", "-O3", "-O2", ""),
    "san": ("g++", "-O1 -g1 -DNTL_RANGE_CHECK " + SAN, "-O1 -g1 -DNTL_RANGE_CHECK " + SAN, SAN),
    "tsan": ("g++", "-O1 -g1 -fsanitize=thread", "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "dbg": ("g++", "-O1 -g1", "-O1 -g1", ""),            # for valgrind
    "cov": ("g++", "-O0 --coverage", "-O1", "--coverage"),  # workload development only
}
LIBS = "-lntl -lgmp -lm -lpthread"


class InfraError(Exception):
    pass


def modules():
    mk = open(os.path.join(NX, "Makefile")).read()
    m = re.search(r"^DIRS\s*=\s*((?:.*\\\n)*.*)$", mk, re.M)
    dirs = m.group(1).replace("\\", " ").split() if m else []
    dirs = [d for d in dirs if os.path.isdir(os.path.join(NX, d, "src"))]
    if not dirs:
        dirs = sorted(os.path.basename(os.path.dirname(d)) for d in glob.glob(NX + "/*/src"))
    return dirs


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build(variant, harness, out_name, log=lambda s: None, extra_flags=""):
    """compile library + harness sources (list of basenames in harness/), link; returns path of the executable"""
    cxx, lf, hf, ldf = VARIANTS[variant]
    mods = modules()
    # generated headers (*.orig -> *.h), as the repository's own build does
    hdrs, gen = [], {}
    for d in mods:
        dd = os.path.join(NX, d)
        hdrs += sorted(glob.glob(dd + "/*.h")) + sorted(glob.glob(dd + "/src/*.h"))
        for f in sorted(glob.glob(dd + "/*.orig")):
            b = os.path.basename(f)[:-5]
            if not os.path.exists(os.path.join(dd, b + ".h")):
                gen[b + ".h"] = read(f)
    hkey = sha(*[x for h in hdrs for x in (h, read(h))], *[x for g in sorted(gen) for x in (g, gen[g])])
    ginc = os.path.join(BUILD, "include", hkey)
    if not os.path.isdir(ginc):
        os.makedirs(os.path.dirname(ginc), exist_ok=True)
        t = tempfile.mkdtemp(dir=os.path.dirname(ginc))
        for g, c in gen.items():
            with open(os.path.join(t, g), "wb") as f:
                f.write(c)
        try:
            os.rename(t, ginc)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    inc = " ".join(["-I" + ginc] + ["-I" + os.path.join(NX, d) for d in mods])
    objdir = os.path.join(BUILD, "obj", variant)
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    hh = sha(*[read(h) for h in sorted(glob.glob(HARN + "/*.h"))])
    for b in harness:
        s = os.path.join(HARN, b + ".cpp")
        jobs.append((s, f"{cxx} -w -std=c++14 {hf} {extra_flags} {inc} -I{HARN}", sha(read(s), hh, hkey, cxx, hf, extra_flags)))
    srcs = [f for d in mods for f in sorted(glob.glob(os.path.join(NX, d, "src", "*.cpp")))]
    if not srcs:
        raise InfraError("no library sources found")
    lib = []
    for s in srcs:
        lib.append((s, f"{cxx} -w -std=c++11 {lf} {inc} -I{os.path.dirname(s)}", sha(read(s), os.path.basename(s), hkey, cxx, lf)))
    lib.sort(key=lambda j: -os.path.getsize(j[0]))
    # large harness files first, so that the parallel build packs well
    allj = sorted(jobs, key=lambda j: -os.path.getsize(j[0])) + lib
    objs = {}

    def one(j):
        s, cmd, key = j
        o = os.path.join(objdir, os.path.basename(s)[:-4] + "-" + key + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp.o" % os.getpid()
            r = subprocess.run(cmd.split() + ["-c", s, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise InfraError("compile failed: %s\n%s" % (s, r.stdout.decode(errors="replace")[-3000:]))
            if variant == "cov" and os.path.exists(t[:-2] + ".gcno"):
                os.rename(t[:-2] + ".gcno", o[:-2] + ".gcno")
            os.rename(t, o)
        else:
            os.utime(o)
        return o

    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        olist = list(ex.map(one, allj))
    exe = os.path.join(BUILD, "bin", out_name + "-" + sha(*olist, ldf))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + ldf.split() + olist + LIBS.split() + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise InfraError("link failed\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(t, exe)
    log("built %s (%s) in %.1fs" % (out_name, variant, time.time() - t0))
    prune()
    return exe


def prune(limit=3 << 30):
    fs = []
    for root in ("obj", "bin"):
        for p in glob.glob(os.path.join(BUILD, root, "**"), recursive=True):
            if os.path.isfile(p):
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 7200:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s
