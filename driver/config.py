"""What each check builds and runs.  tier 0 = small inputs (sanitizers, valgrind), 1 = quick, 2 = thorough; mode 1 = purity monitors on."""
import glob, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
ALL_FILES = sorted(os.path.basename(f)[:-4] for f in glob.glob(H + "/p[0-9]*.cpp"))


def functional(files, q1, q2, **kw):
    # quick: many cases of ordinary size, then some of the thorough tier's sizes; thorough: more of both, and small inputs in the sanitizer build
    q = [dict(variant="opt", tier=1, scale=q1, budget=200), dict(variant="opt", tier=2, scale=q2, budget=120, cpu=100, seedoff=7000)]
    t = [dict(variant="opt", tier=2, scale=1, budget=1500, cpu=200), dict(variant="opt", tier=1, scale=5 * q1, budget=900, cpu=100, seedoff=2000), dict(variant="san", tier=0, scale=3, budget=900, cpu=200, seedoff=1000)]
    return dict(files=files, quick=q, thorough=t, **kw)


# case multipliers of the two quick parts
QS = {"C01": (6, .12), "C02": (8, .2), "C03": (4, .06), "C04": (2, .015), "C05": (5, .4), "C06": (6, .15), "C07": (3, .07), "C08": (5, .12), "C09": (8, .3), "C10": (15, .15), "C11": (30, 1), "C12": (20, .4),
      "C13": (50, 1), "C14": (14, .4), "C15": (14, .08), "C16": (25, 2), "C17": (15, 2), "C18": (5, .25), "C19": (8, 1), "C20": (8, 1), "C21": (20, 1), "C22": (40, 2), "C26": (40, 2), "C27": (30, 2)}
CHECKS = {"C%02d" % i: functional(["p%02d" % i], *QS["C%02d" % i]) for i in range(1, 23)}
CHECKS["C26"] = functional(["p26"], *QS["C26"])
CHECKS["C27"] = functional(["p27"], *QS["C27"])

# C23: every workload of the harness in the sanitizer build; crashes, sanitizer and range-check reports, leaks, hangs and unexpected library errors decide
MEM = dict(files="ALL", variant="san", only_kinds=("crash", "exit", "hang"), only_msg=r"out of range|library error raised|exception raised", exe="ALL-san")
# the same under valgrind memcheck, which also sees decisions taken on uninitialised values (libntl and libgmp included)
VG = dict(MEM, variant="dbg", exe="ALL-dbg", only_msg="^$", wrap=["valgrind", "-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--leak-check=no", "--child-silent-after-fork=yes", "--max-stackframe=8000000", "--num-callers=20"])
CHECKS["C23"] = dict(quick=[dict(MEM, tier=0, scale=12, budget=300, cpu=60), dict(VG, tier=0, scale=1, budget=200, cpu=120, seedoff=100)],
                     thorough=[dict(VG, tier=0, scale=5, budget=1800, cpu=300, seedoff=600), dict(MEM, tier=0, scale=8, budget=1800, cpu=120, seedoff=500), dict(MEM, tier=1, scale=0.25, budget=1800, cpu=300, seedoff=700)])
# C24: every workload with purity monitors (mode 1)
PURE = dict(files="ALL", variant="opt", mode=1, exe="ALL-opt", only_kinds=("-",), only_msg=r"input argument modified|different (result|verdict) on repetition|modulus changed", history=True)
CHECKS["C24"] = dict(quick=[dict(PURE, tier=0, scale=15, budget=300, cpu=60), dict(PURE, tier=1, scale=0.25, budget=200, cpu=100, seedoff=50)], thorough=[dict(PURE, tier=1, scale=1, budget=2400, cpu=200, seedoff=300)])
# C25: every workload (but those that capture the process-wide standard output) from several threads at once, in the thread sanitizer build
MT = dict(files=[f for f in ALL_FILES if f not in ("p09", "p22", "p26")], variant="tsan", main="mt", exe="MT-tsan", shards=4, alone_ok=True)
CHECKS["C25"] = dict(quick=[dict(MT, tier=0, scale=2, budget=300, cpu=120, args=["--threads", "6"]), dict(MT, tier=1, scale=1, budget=150, cpu=300, args=["--threads", "6"], seedoff=40)], thorough=[dict(MT, tier=0, scale=20, budget=1500, cpu=500, args=["--threads", "8"], seedoff=900), dict(MT, tier=1, scale=5, budget=1500, cpu=1500, args=["--threads", "8"], seedoff=950)])
