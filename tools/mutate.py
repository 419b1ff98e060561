#!/usr/bin/env python3
"""Development tool (not a check): random small mutations of the library, run against the harness; lists the survivors.
usage: mutate.py SEED COUNT [file-substring]   -> /tmp/mut/res.SEED.jsonl"""
import glob, json, os, random, re, subprocess, sys, time, concurrent.futures, signal, threading
V = "/verif"; sys.path.insert(0, V + "/driver")
import build as B
B.BUILD = "/tmp/mut/build"
NX = B.NX
PROPS = [  # file substring -> properties
 ("multiply_3_primes", "C01,C02,C03"), ("t_multiply", "C02"), ("middle_product", "C02"), ("multiply", "C01"), ("lmultiplier", "C03"), ("mat_lzz_pX_arith", "C04,C27"), ("mat_lzz_pX_utils", "C04"), ("mat_lzz_pX_forms", "C05"), ("mat_lzz_pX_approximant", "C06,C22"), ("mat_lzz_pX_mbasis", "C06"), ("pmbasis_generic", "C09,C08"), ("mat_lzz_pX_pmbasis", "C06"),
 ("interpolant", "C07,C22"), ("kernel", "C08,C22"), ("inv_trunc", "C10,C27"), ("linsolve", "C11,C12,C10"), ("determinant", "C12"), ("inverse", "C11"), ("lzz_pX_CRT", "C14,C15"), ("structured_lzz_p/", "C17,C18"), ("structured_lzz_pX/", "C19"), ("lzz_pXY", "C20"), ("lzz_pX_seq", "C21"), ("magma", "C26"), ("sage", "C26"), ("mat_lzz_pX_extra/src/mat_lzz_pX_sequence", "C09,C20"), ("lzz_p_extra", "C16,C27"), ("lzz_pX_extra", "C16"), ("lzz_pX_middle_product", "C02"), ("mat_lzz_p_extra", "C16"), ("linearization", "C04"), ("division", "C13"), ("reduction", "C13"), ("t_multiply", "C02"),
]
def props(f):
    for s, p in PROPS:
        if s in f: return p
    return "ALL"
SKIP = re.compile(r"cout|LogicError|Error\(|throw|GetWallTime|#|^\s*//|^\s*\*|^\s*/\*|static_assert|\bconst\b.*\)\s*;|^\s*return;|PML_|inline|template")
def muts(line):
    out = []
    code = line.split("//")[0]
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            out.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    if re.search(r"\b(if|for|while)\b|\?", code):
        sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > "); sub(r" == ", " != "); sub(r" != ", " == "); sub(r"&&", "||"); sub(r"\|\|", "&&")
        sub(r"(?<=[\w)])<(?=[\w(])(?!.*>)", "<="); sub(r"(?<=[\w)])<=(?=[\w(])", "<"); sub(r"(?<=[\w)])==(?=[\w(-])", "!="); sub(r"= 0;", "= 1;"); sub(r"= 1;", "= 0;"); sub(r"=0;", "=1;")
        if "if" in code and "else if" not in code: sub(r"\bif \((?=&)", "if (false && ")
    sub(r" ?\+ ?1\b(?!\.)", ""); sub(r" ?- ?1\b(?!\.)", ""); sub(r"(?<=[\w)\]]) ?\+ ?(?=[\w(])(?!\+)", " - "); sub(r"(?<=[\w)\]]) ?- ?(?=[\w(])(?!-|>)", " + "); sub(r"\b2\*", "1*"); sub(r"\bmin\(", "max("); sub(r"\bmax\(", "min(")
    if re.match(r"^\s*[\w:.\[\]()\->*&+ ]+\(.*\);\s*$", code) and not re.match(r"^\s*(return|else|for|while|if|Vec|Mat|std|VecLong|zz_p|long|const|auto)\b", code): out.append(re.match(r"^\s*", line).group(0) + ";")
    if re.match(r"^\s*[\w.\[\]()\->*+ ]+\s*[+*-]?=\s*[^=].*;\s*$", code) and not re.match(r"^\s*(return|else|for|while|if|Vec|Mat|std|VecLong|zz_p|zz_pX|long|const|auto|double|bool|int)\s", code): out.append(re.match(r"^\s*", line).group(0) + ";")
    if re.match(r"^\s*continue;\s*$|^\s*break;\s*$", code): out.append(";")
    return [o for o in dict.fromkeys(out) if o != line]
KW = set("if for while do else return long int double bool const auto Vec Mat zz_p zz_pX Vec VecLong std static void true false inline size_t break continue switch case default unsigned zz_pXY fftRep INIT_SIZE new delete this".split())
IDN = re.compile(r"\b[A-Za-z_]\w*\b(?!\s*[(<:]|::)")
def ident_muts(L, i):
    """the identifier at one place replaced by another one used nearby (variables mixed up)"""
    code = L[i].split("//")[0]; near = set()
    for l in L[max(0, i - 14):i + 8]: near |= set(m.group(0) for m in IDN.finditer(l.split("//")[0]))
    near -= KW; out = []
    for m in IDN.finditer(code):
        if m.group(0) in KW or re.match(r"\s*[\w:<>]+ *&? *$", code[:m.start()]) and code[:m.start()].strip() in ("long", "const long", "auto", "zz_p", "zz_pX"): continue
        for n in sorted(near - {m.group(0)}): out.append(L[i][:m.start()] + n + L[i][m.end():])
    return out
def candidates(sub):
    c = []
    for f in sorted(glob.glob(NX + "/*/src/*.cpp")):
        if sub and sub not in f: continue
        if "util.cpp" in f: continue
        L = open(f).read().split("\n"); inc = False
        for i, l in enumerate(L):
            if "/*" in l and "*/" not in l: inc = True
            if "*/" in l: inc = False; continue
            if inc or not l.startswith(" ") and not l.startswith("\t") or SKIP.search(l): continue
            for m in (ident_muts(L, i) if os.environ.get("IDENT") else muts(l)): c.append((f, i, m))
    return c
def run(exe, args, log, limit, mem=4 << 30):
    if os.path.exists(log): os.unlink(log)
    p = subprocess.Popen([exe, "--log", log] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (mem, mem)) if mem < 1 << 60 else None, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    t0 = time.time(); off = 0; last = ""
    while True:
        rc = p.poll()
        if os.path.exists(log):
            with open(log, errors="replace") as f:
                f.seek(off); s = f.read(); off += len(s)
            m = next((x for x in re.finditer(r'\{"t":"fail".*', s) if not re.search(r'"op":"(kernel_generic_odd|det_linsolve_smith|modified_kurakin_vectors_min)"', x.group(0))), None)
            if m:
                p.kill(); p.wait(); return "fail", m.group(0)[:400]
        if rc is not None:
            return ("ok", "") if rc == 0 else ("crash", "rc=%d" % rc)
        if time.time() - t0 > limit:
            p.kill(); p.wait(); return "timeout", ""
        time.sleep(0.3)
def main():
    seed, cnt = int(sys.argv[1]), int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ""
    rnd = random.Random(seed); harn = ["main", "common", "perturb"] + [os.path.basename(x)[:-4] for x in sorted(glob.glob(V + "/harness/p[0-9]*.cpp"))]
    B.VARIANTS["mut"] = ("g++", "-O1", "-O1", "")
    base = B.build("mut", harn, "MUT", print)
    cs = candidates(sub); rnd.shuffle(cs)
    # spread over files: at most a share per file
    objdir = B.BUILD + "/obj/mut"; mods = B.modules()
    objs = {}
    for o in glob.glob(objdir + "/*.o"):
        objs.setdefault(os.path.basename(o).rsplit("-", 1)[0], []).append(o)
    objs = {k: max(v, key=os.path.getmtime) for k, v in objs.items()}
    inc = " ".join("-I" + d for d in glob.glob(B.BUILD + "/include/*")) + " " + " ".join("-I" + os.path.join(NX, d) for d in mods)
    out = open("/tmp/mut/res.%d.jsonl" % seed, "w"); lock = threading.Lock(); stat = {}
    sanb = None
    if os.environ.get("SAN", "1") == "1":
        B.build("san", harn, "MUTS", print)
        so = {}
        for o in glob.glob(B.BUILD + "/obj/san/*.o"): so.setdefault(os.path.basename(o).rsplit("-", 1)[0], []).append(o)
        sanb = {k: max(v, key=os.path.getmtime) for k, v in so.items()}
    def one(job):
        k, (f, i, m) = job; w = "/tmp/mut/w%d_%d" % (seed, k); os.makedirs(w, exist_ok=True); b = os.path.basename(f)[:-4]; L = open(f).read().split("\n"); old = L[i]; L[i] = m
        src = w + "/" + b + ".cpp"; open(src, "w").write("\n".join(L))
        r = subprocess.run(("g++ -w -std=c++11 -O1 %s -I%s -c %s -o %s/o.o" % (inc, os.path.dirname(f), src, w)).split(), capture_output=True)
        res, msg = "nocompile", ""
        if r.returncode == 0:
            if open(w + "/o.o", "rb").read() == open(objs[b], "rb").read(): res = "same"
            else:
                r = subprocess.run(["g++"] + [w + "/o.o" if q == b else o for q, o in objs.items()] + B.LIBS.split() + ["-o", w + "/x"], capture_output=True)
                if r.returncode: res = "nolink"; msg = r.stderr.decode()[-300:]
                else:
                    pr = props(f); a = [] if pr == "ALL" else ["--props", pr]
                    res, msg = run(w + "/x", ["--tier", "0", "--scale", "1", "--cpu", "20", "--seed", "1"] + a, w + "/l", 60)
                    if res == "ok":
                        res, msg = run(w + "/x", ["--tier", "1", "--scale", "1.5", "--cpu", "30", "--seed", "2", "--budget", "100"] + a, w + "/l", 150); res = "B-" + res
                        if res == "B-ok":
                            res, msg = run(w + "/x", ["--tier", "0", "--scale", "0.5", "--cpu", "20", "--seed", "3"], w + "/l", 100); res = "C-" + res
                    if res == "C-ok" and sanb:
                        _, lf, _, ldf = B.VARIANTS["san"]
                        subprocess.run(("g++ -w -std=c++11 %s %s -I%s -c %s -o %s/s.o" % (lf, inc, os.path.dirname(f), src, w)).split(), capture_output=True)
                        subprocess.run(["g++"] + ldf.split() + [w + "/s.o" if q == b else o for q, o in sanb.items()] + B.LIBS.split() + ["-o", w + "/xs"], capture_output=True)
                        res, msg = run(w + "/xs", ["--tier", "0", "--scale", "1", "--cpu", "100", "--seed", "1"] + a, w + "/l", 300, 1 << 62); res = "D-" + res
        subprocess.run(["rm", "-rf", w])
        with lock:
            stat[res] = stat.get(res, 0) + 1; out.write(json.dumps(dict(f=os.path.relpath(f, NX), line=i + 1, old=old.strip(), new=m.strip(), res=res, msg=msg)) + "\n"); out.flush()
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", 8))) as ex: list(ex.map(one, enumerate(cs[:cnt])))
    print(len(cs), "candidates", stat)
main()
