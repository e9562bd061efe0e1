"""C24: the accft program run as a user runs it, over enumerated inputs, options and I/O faults.
  --mode valid      formats x instances x cost mode x starting solutions x output names
  --mode options    all sequences of command-line options up to a depth
  --mode invalid    malformed, truncated, infeasible files; invalid starting solutions; bad paths
  --mode faults     every call of the program's file streams fails (and pairs of them)
"""
import itertools, os, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
build = sys.argv[sys.argv.index("--build") + 1]
from pymc import Runtime

args = sys.argv[1:]
k = args.index("--build")
rt = Runtime(args[:k] + args[k + 2:])
MODE = rt.args["--mode"]
EXE = os.path.join(build, "accft")
ASAN = os.path.join(build, "accft-asan")
SHIM = os.path.join(build, "iofault.so")
DIR = os.path.join(os.environ.get("MC_SCRATCH", "."), f"accft-{os.getpid()}")
os.makedirs(DIR, exist_ok=True)
os.chdir(DIR)
BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8",
            "ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99"}
FMTS = ("RAIL", "SCP", "CVRP", "MPS")


class Inst:
    def __init__(self, nrows, cols, costs):
        self.nrows, self.cols, self.costs = nrows, [list(c) for c in cols], list(costs)

    def rows(self):
        return [[j for j, c in enumerate(self.cols) if i in c] for i in range(self.nrows)]

    def feasible(self):
        return all(self.rows())

    def covers(self, sel):
        return len({i for j in sel for i in self.cols[j]}) == self.nrows

    def cost(self, sel, unit):
        return float(len(sel)) if unit else sum(self.costs[j] for j in sel)

    def __str__(self):
        return f"{self.nrows} rows {list(zip(self.cols, self.costs))}"


def rail(a, start=None):
    return "".join([f"{a.nrows} {len(a.cols)}\n"] + [" ".join(map(str, [f"{c:g}", len(r)] + [i + 1 for i in r])) + "\n" for r, c in zip(a.cols, a.costs)])


def scp(a, start=None):
    o = f"{a.nrows} {len(a.cols)}\n"
    t = [f"{c:g}" for c in a.costs]
    for b in range(0, len(t), 12):
        o += " ".join(t[b:b + 12]) + "\n"
    for r in a.rows():
        o += f"{len(r)}\n"
        for b in range(0, len(r), 12):
            o += " ".join(str(j + 1) for j in r[b:b + 12]) + "\n"
    return o


def cvrp(a, start=None):
    o = f"{a.nrows} {len(a.cols)}\n"
    for r, c in zip(a.cols, a.costs):
        o += " ".join(map(str, [f"{c:g}", f"{c:g}"] + r)) + "\n"
    if start:
        o += " ".join(map(str, start)) + "\n"
    return o


def mps(a, start=None):
    o = "NAME  t\nROWS\n N  obj\n" + "".join(f" G  r{i}\n" for i in range(a.nrows)) + "COLUMNS\n"
    for j, (r, c) in enumerate(zip(a.cols, a.costs)):
        e = [f"obj  {c:g}"] + [f"r{i}  1" for i in r]
        for b in range(0, len(e), 2):
            o += f"    x{j}  " + "  ".join(e[b:b + 2]) + "\n"
    return o + "RHS\n" + "".join(f"    RHS  r{i}  1\n" for i in range(a.nrows)) + "ENDATA\n"


WRITE = {"RAIL": rail, "SCP": scp, "CVRP": cvrp, "MPS": mps}


def put(name, text):
    with open(name, "w", newline="") as f:
        f.write(text)


def clean():
    for n in os.listdir("."):
        shutil.rmtree(n) if os.path.isdir(n) and not os.path.islink(n) else os.unlink(n)


class Run:
    def __init__(self, argv, exe=EXE, env=None, stdout=None):
        try:
            r = subprocess.run([exe] + argv, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=dict(BASE_ENV, **(env or {})), timeout=60, close_fds=False)
            self.rc, self.err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            self.rc, self.err = None, "no termination within 60 s"
        rt.transitions += 1
        rt.validated += 1

    def __str__(self):
        return f"exit status {self.rc}, stderr {self.err.strip()[:300]!r}"


def read_sol(path):
    with open(path) as f:
        t = f.read().split()
    if not t:
        raise ValueError("empty file")
    cost, sel = float(t[0]), [int(x) for x in t[1:]]
    if str(sel) != str([int(x) for x in t[1:]]):
        raise ValueError("bad index")
    return cost, sel


def good_file(a, unit, path, start):
    """None if the solution file is a feasible cover with its cost, not worse than the start."""
    try:
        cost, sel = read_sol(path)
    except (OSError, ValueError) as e:
        return f"unreadable solution file: {e}"
    if len(set(sel)) != len(sel) or any(j < 0 or j >= len(a.cols) for j in sel):
        return f"invalid columns {sel}"
    if not a.covers(sel):
        return f"columns {sel} do not cover the rows"
    true = a.cost(sel, unit)
    tol = 1e-4 * max(1.0, abs(true))
    if not abs(cost - true) <= tol:
        return f"cost {cost} of columns {sel} instead of {true}"
    if start is not None and true > a.cost(start, unit) + tol:
        return f"cost {true} worse than the starting solution's {a.cost(start, unit)}"
    return None


def answered(r):
    """Neither a crash nor a hang; a failure carries a message."""
    if r.rc is None or r.rc < 0 or r.rc > 128 or r.rc == 99:
        return f"crash or no termination: {r}"
    if r.rc != 0 and "ERROR" not in r.err:
        return f"failure without an error message: {r}"
    return None


def must_succeed(r, a, unit, path, start):
    bad = answered(r) or (None if r.rc == 0 else f"valid input refused: {r}") or good_file(a, unit, path, start)
    rt.count("solved" if not bad else "bad")
    rt.check(not bad, bad)


def must_fail(r):
    bad = answered(r) or (None if r.rc != 0 else "exit status 0 for an input or output that cannot be used")
    rt.count("refused" if not bad else "bad")
    rt.check(not bad, bad)


def all_insts(m, n, costs):
    subsets = [s for q in range(m + 1) for s in itertools.combinations(range(m), q)]
    for cols in itertools.combinations_with_replacement(subsets, n):
        for cs in itertools.product(costs, repeat=n):
            yield Inst(m, cols, cs)


def structured():
    yield Inst(4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 1, 2, 3)], [1, 1, 1, 1, 2.5])
    yield Inst(5, [(i, (i + 1) % 5) for i in range(5)] + [(0, 2, 4)], [1, 1, 1, 1, 1, 1.5])
    yield Inst(6, [(i,) for i in range(6)] + [(0, 1, 2), (3, 4, 5), (0, 2, 4), (1, 3, 5)], [1] * 6 + [2, 2, 2, 2])
    # many columns per row: several rounds of the solver
    yield Inst(12, [((7 * j + k * k) % 12, (5 * j + 3 * k) % 12) if (7 * j + k * k) % 12 != (5 * j + 3 * k) % 12 else ((7 * j + k * k) % 12,)
                    for j in range(12) for k in range(3)], [1 + (j * 5 % 7) for j in range(36)])


def big():
    """Files of several read blocks."""
    n, m = 700, 40
    return Inst(m, [sorted({(j * 13 + q * (q + j % 5)) % m for q in range(1 + j % 6)}) for j in range(n)], [1 + j * 37 % 23 for j in range(n)])


def covers_of(a, limit):
    out = []
    n = len(a.cols)
    for q in range(1, n + 1):
        for s in itertools.combinations(range(n), q):
            if a.covers(s):
                out.append(s)
                if len(out) >= limit:
                    return out
    return out


def worst_cover(a):
    """Every column: a feasible start that is easy to improve."""
    return tuple(range(len(a.cols)))


def best_cover(a, unit):
    full = (1 << a.nrows) - 1
    best = {0: (0.0, ())}
    for s in range(full):
        if s not in best:
            continue
        c, sel = best[s]
        low = next(i for i in range(a.nrows) if not s >> i & 1)
        for j, col in enumerate(a.cols):
            if low in col:
                t = s
                for i in col:
                    t |= 1 << i
                v = c + (1 if unit else a.costs[j])
                if t not in best or v < best[t][0]:
                    best[t] = (v, sel + (j,))
    return tuple(best[full][1])


OUTNAMES = [("-o", "out.sol"), ("--out-sol", "sub/x"), (None, None)]
INNAMES = ["inst.txt", "noext", "dir.d/inst.a.b", "./sub/../inst.dat", "sub/inst"]


def default_name(path):
    b = path.split("/")[-1]
    return (b[:b.rindex(".")] if "." in b else b) + ".sol"


def mode_valid():
    insts = [a for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)) for a in all_insts(m, n, (1, 2))]
    insts += list(all_insts(2, 3, (1, 2.5) if rt.thorough else (1,)))
    if rt.thorough:
        insts += list(all_insts(3, 3, (1, 2)))
    insts += list(structured())
    for ii, a in enumerate(insts):
        for fmt in FMTS:
            for unit in (False, True):
                starts = [None] + ([] if not a.feasible() else covers_of(a, 6 if rt.thorough else 2) + [worst_cover(a)])
                if a.feasible() and a.nrows <= 6:
                    starts.append(best_cover(a, unit))
                for start in dict.fromkeys(starts):
                    # starting solutions inside a CVRP file and in a file of their own
                    for where in ((("file", "inst") if fmt == "CVRP" else ("file",)) if start else ("",)):
                        if not rt.take(lambda: f"{fmt} unit={unit} start={start} {where} {a}"):
                            continue
                        clean()
                        os.makedirs("sub")
                        os.makedirs("dir.d")
                        inn = INNAMES[(ii + FMTS.index(fmt)) % len(INNAMES)]
                        flag, out = OUTNAMES[(ii + unit) % 3]
                        put(inn, WRITE[fmt](a, start if where == "inst" else None))
                        argv = ["-i", inn, "-p", fmt] + ([flag, out] if flag else []) + (["-u"] if unit else [])
                        if where == "file":
                            put("start.sol", " ".join(map(str, [f"{a.cost(start, False):g}"] + list(start))))
                            argv += ["-w", "start.sol"]
                        rt.state(fmt, unit, start, where, a.nrows, a.cols, a.costs)
                        r = Run(argv)
                        if a.feasible():
                            must_succeed(r, a, unit, out or default_name(inn), start)
                        else:
                            must_fail(r)


OPTS = [["-u"], ["--unit-costs"], ["-s", "7"], ["--seed", "18446744073709551615"], ["-t", "1000"], ["-t", "0"], ["-t", "-1"], ["--timelimit", "0.5"],
        ["-v", "0"], ["--verbose", "5"], ["-v", "2"], ["-e", "0.5"], ["--epsilon", "0.001"], ["-g", "1"], ["--heur-iters", "0"],
        ["-b", "0"], ["--beta", "1"], ["-a", "0"], ["--abs-subg-exit", "10"], ["-r", "0"], ["--rel-subg-exit", "1"], ["--unknown"], ["stray"],
        ["-o", "other.sol"], ["--out-sol", "out.sol"], ["-w", "start.sol"], ["--init-sol", "start.sol"], ["-w", "out.sol"], ["-h"], ["--help"]]
BAD = [["-s", "x"], ["-s", "-1"], ["-t", "abc"], ["-v", "-1"], ["-g", ""], ["-e", "e"], ["-b", "--"], ["-a", "z"], ["-r", "."],
       ["-p", "XXX"], ["-p", "rail"], ["-p", ""], ["-i", "missing"], ["-o", "nodir/x"], ["-o", "/dev/full"], ["-o", "."], ["-w", "missing"], ["-w", "."],
       ["-i", "."]]


def mode_options():
    insts = list(structured())
    insts = insts if rt.thorough else [insts[0], insts[3]]
    for ii, a in enumerate(insts):
        best, start = best_cover(a, False), worst_cover(a)
        for fmt in FMTS if rt.thorough else ("RAIL", "MPS"):
            base = [["-i", "inst.txt"], ["-p", fmt]]
            for n in (0, 1, 2) + ((3,) if rt.thorough and ii == 0 and fmt == "SCP" else ()):
                for opts in itertools.product(OPTS, repeat=n):
                    for order in (0, 1) if n else (0,):
                        if not rt.take(lambda: f"{fmt} {opts} order={order} {a}"):
                            continue
                        clean()
                        put("inst.txt", WRITE[fmt](a))
                        put("start.sol", " ".join(map(str, [f"{a.cost(start, False):g}"] + list(start))))
                        put("out.sol", " ".join(map(str, [f"{a.cost(best, False):g}"] + list(best))))
                        seq = (base + list(opts)) if order == 0 else (list(opts) + base)
                        flat = [x for o in seq for x in o]
                        out, w, unit = "inst.sol", None, False
                        for o in seq:
                            if o[0] in ("-o", "--out-sol"):
                                out = o[1]
                            elif o[0] in ("-w", "--init-sol"):
                                w = o[1]
                            elif o[0] in ("-u", "--unit-costs"):
                                unit = True
                        rt.state(fmt, opts, order)
                        must_succeed(Run(flat), a, unit, out, {None: None, "start.sol": start, "out.sol": best}[w])
            # one unusable option anywhere among the others
            for b in BAD:
                for o in [[]] + OPTS:
                    for pos in (0, 1, 2):
                        if not rt.take(lambda: f"{fmt} {b} with {o} at {pos}"):
                            continue
                        clean()
                        put("inst.txt", WRITE[fmt](a))
                        put("start.sol", " ".join(map(str, [f"{a.cost(start, False):g}"] + list(start))))
                        put("out.sol", " ".join(map(str, [f"{a.cost(best, False):g}"] + list(best))))
                        seq = base + ([o] if o else [])
                        if o and o[0] == b[0] or {o[0] if o else "", b[0]} in ({"-o", "--out-sol"}, {"-w", "--init-sol"}, {"-t", "--timelimit"}):
                            seq = base
                        seq = seq[:pos] + [b] + seq[pos:]
                        if b[0] in ("-p", "-i"):  # the last one counts
                            seq = [x for x in seq if x[0] != b[0]] + [b]
                        rt.state(fmt, b, o, pos)
                        must_fail(Run([x for q in seq for x in q]))
    # no instance at all; values missing at the end of the line
    a = insts[0]
    for argv in ([], ["-h"], ["-i"], ["-p", "RAIL"], ["-o", "x"], ["inst.txt"], ["-i", ""]):
        if rt.take(lambda: f"incomplete {argv}"):
            clean()
            put("inst.txt", rail(a))
            must_fail(Run(argv))
    for o in OPTS:
        if len(o) == 2 and rt.take(lambda: f"value missing {o}"):
            clean()
            put("inst.txt", rail(a))
            r = Run(["-i", "inst.txt", "-p", "RAIL", o[0]])
            bad = answered(r) or (good_file(a, False, "inst.sol", None) if r.rc == 0 else None)
            rt.check(not bad, bad)


def tokens(text):
    return [(m.start(), m.end()) for m in re.finditer(r"\S+", text)]


def mode_invalid():
    insts = [Inst(2, [(0, 1), (1,)], (1, 2)), Inst(3, [(0, 1), (1, 2), (0, 2)], (12, 20, 10)), Inst(1, [(0,)], (5,))]
    if rt.thorough:
        insts += list(structured())[:3]
    exes = (EXE, ASAN)
    for a in insts:
        start = worst_cover(a)
        for fmt in FMTS:
            for st in (None, start) if fmt == "CVRP" else (None,):
                text = WRITE[fmt](a, st)
                tk = tokens(text)

                def mutations():
                    # a file that ends early: anywhere but inside or after the last value that is announced
                    last = tokens(text[:text.index("RHS") + 3])[-1] if fmt == "MPS" else tk[-1]
                    for cut in range(0, last[0]):
                        if fmt == "CVRP":
                            # columns and starting solution of any length are legal, so only the column count is announced
                            body = text[:cut]
                            if len([l for l in body.split("\n") if l.strip()]) > len(a.cols):
                                continue
                        yield f"cut at {cut}", text[:cut], True if fmt != "CVRP" else None
                    # every value replaced by something that is not one, and left out
                    for q, (b, e) in enumerate(tk):
                        num = re.fullmatch(r"[0-9.]+", text[b:e]) is not None
                        for w in ("", "x", "-1", "0", "99999", "4294967297", "99999999999999999999", "nan", "-", "1e9", "1.5", "\0", "1 1"):
                            must = None
                            if num and w in ("x", "-") and fmt != "MPS":
                                must = True
                            yield f"token {q} -> {w!r}", text[:b] + w + text[e:], must
                    for q in range(len(text.split("\n"))):
                        ls = text.split("\n")
                        yield f"line {q} removed", "\n".join(ls[:q] + ls[q + 1:]), None
                        yield f"line {q} twice", "\n".join(ls[:q] + [ls[q]] + ls[q:]), None
                    for other in FMTS:
                        if other != fmt:
                            yield f"a {other} file", WRITE[other](a), None
                    for bad in ("", "\n", " ", "0 0\n", "-1 -1\n", "2\n", "1 1", "ROWS\nCOLUMNS\nRHS\n", "ROWS\n", "\xff\xfe", "1 1\n\n\n\n"):
                        yield f"file {bad!r}", bad, True
                for what, body, must in mutations():
                    for exe in exes:
                        if not rt.take(lambda: f"{fmt} start={st} {what} {'asan ' if exe == ASAN else ''}{a}"):
                            continue
                        clean()
                        put("inst.txt", body)
                        rt.state(fmt, body)
                        r = Run(["-i", "inst.txt", "-p", fmt, "-o", "out", "-t", "5"], exe)
                        if must:
                            must_fail(r)
                        else:
                            bad = answered(r)
                            if not bad and r.rc == 0:
                                bad = self_consistent("out", body, fmt)
                            rt.count("accepted" if r.rc == 0 else "refused")
                            rt.check(not bad, bad)
    # rows that no column covers
    for a in all_insts(2, 2, (1,)):
        if a.feasible():
            continue
        for fmt in FMTS:
            if rt.take(lambda: f"infeasible {fmt} {a}"):
                clean()
                put("inst.txt", WRITE[fmt](a))
                must_fail(Run(["-i", "inst.txt", "-p", fmt, "-o", "out"]))
    # starting solutions: every list of columns up to a length, with the right and wrong costs
    a = insts[1]
    for fmt in ("RAIL", "SCP", "MPS", "CVRP"):
        for q in range(0, 4):
            for sel in itertools.product((-1, 0, 1, 2, 3), repeat=q):
                true = sum(a.costs[j] for j in sel if 0 <= j < 3)
                valid = len(set(sel)) == len(sel) and all(0 <= j < 3 for j in sel) and a.covers(sel)
                for cost in (true, 0, true - 1, true + 1, "nan", "x", "") if valid or rt.thorough else (true,):
                    for unit in (False, True):
                        if not rt.take(lambda: f"start {fmt} {sel} cost {cost} unit={unit}"):
                            continue
                        clean()
                        put("inst.txt", WRITE[fmt](a))
                        put("start.sol", " ".join(map(str, [cost] + list(sel))))
                        rt.state("start", fmt, sel, cost, unit)
                        r = Run(["-i", "inst.txt", "-p", fmt, "-o", "out", "-w", "start.sol"] + (["-u"] if unit else []))
                        if valid and cost == true:
                            must_succeed(r, a, unit, "out", sel)
                        elif unit and valid and cost not in ("x", ""):
                            # with unit costs the cost written in the file is not that of the problem solved: both answers are right
                            bad = answered(r) or (good_file(a, unit, "out", None) if r.rc == 0 else None)
                            rt.check(not bad, bad)
                        elif cost == "" and sel:
                            # the first column is read as the cost
                            bad = answered(r) or (good_file(a, unit, "out", None) if r.rc == 0 else None)
                            rt.check(not bad, bad)
                        else:
                            must_fail(r)


def self_consistent(path, body, fmt):
    """The file was accepted although changed: whatever it now says, the answer must be a list of distinct columns."""
    try:
        cost, sel = read_sol(path)
    except (OSError, ValueError) as e:
        return f"exit status 0 with an unreadable solution file: {e}"
    if not sel or len(set(sel)) != len(sel) or min(sel) < 0:
        return f"exit status 0 with columns {sel}"
    if fmt == "MPS":
        return None
    # if the changed text still is a plain file of its format, the answer has to be right for what it says
    a = plain(body, fmt)
    return good_file(a, False, path, None) if a else None


def plain(body, fmt):
    try:
        ls = [l.split() for l in body.split("\n")]
        m, n = int(ls[0][0]), int(ls[0][1])
        if len(ls[0]) != 2 or m <= 0 or n <= 0 or m > 1000 or n > 1000:
            return None
        if fmt == "RAIL":
            cols = [[int(x) - 1 for x in ls[1 + j][2:2 + int(ls[1 + j][1])]] for j in range(n)]
            costs = [float(ls[1 + j][0]) for j in range(n)]
        elif fmt == "CVRP":
            cols = [[int(x) for x in ls[1 + j][2:]] for j in range(n)]
            costs = [float(ls[1 + j][0]) for j in range(n)]
        else:
            # every line ends where a list ends, or inside one list only
            rest = [l for l in ls[1:] if l]

            def take(q):
                t = []
                while len(t) < q:
                    t += rest.pop(0)
                if len(t) > q:
                    raise ValueError
                return t
            costs = [float(x) for x in take(n)]
            cols = [[] for _ in range(n)]
            for i in range(m):
                for x in take(int(take(1)[0])):
                    if int(x) < 1:
                        return None
                    cols[int(x) - 1].append(i)
            if any(not l for l in ls[:-1]):
                return None
        if any(i < 0 or i >= m for c in cols for i in c) or any(c != c or abs(c) > 1e6 for c in costs) or any(len(set(c)) != len(c) for c in cols):
            return None
        return Inst(m, cols, costs)
    except (ValueError, IndexError):
        return None


def mode_faults():
    smalls = list(structured())
    insts = [("small", smalls[0]), ("mid", smalls[3]), ("big", big())]
    for name, a in insts:
        start = best_cover(a, False) if a.nrows <= 12 else worst_cover(a)
        for fmt in FMTS:
            for where in ("", "file") + (("inst",) if fmt == "CVRP" else ()):
                st = start if where else None
                text = WRITE[fmt](a, st if where == "inst" else None)
                put("probe.txt", text)
                argv = ["-i", "inst.txt", "-p", fmt, "-o", "out", "-v", "0", "-t", "-1"]
                if where == "file":
                    argv += ["-w", "start.sol"]

                def prepare():
                    clean()
                    put("inst.txt", text)
                    put("start.sol", " ".join(map(str, [f"{a.cost(start, False):g}"] + list(start))))

                def trace(fault):
                    r = Run(argv, env={"LD_PRELOAD": SHIM, "IOFAULT": fault, "IOFAULT_LOG": DIR + "/log"})
                    try:
                        with open("log") as f:
                            return r, f.read()
                    except OSError:
                        return r, ""

                prepare()
                r0, ops = trace("")
                if rt.take(lambda: f"{name} {fmt} start={where} without faults: {ops}"):
                    rt.check(r0.rc == 0 and "r" in ops and "w" in ops, f"faults cannot be injected: {r0} calls {ops!r}")
                    must_succeed(r0, a, False, "out", st)
                ref = open("out").read() if r0.rc == 0 else ""

                def one(faults, depth):
                    """faults: list of (index, kind); returns the trace"""
                    spec = ",".join(f"{i}:{c}" for i, c in faults)
                    prepare()
                    r, t = trace(spec)
                    rt.state(name, fmt, where, t, spec)
                    hard = False
                    for i, c in faults:
                        if i < len(t) and c not in "1HR" and not (t[i] == "c"):
                            hard = True
                    if hard:
                        must_fail(r)
                    else:
                        must_succeed(r, a, False, "out", st)
                        if r.rc == 0 and not any(c not in "1HR" for _, c in faults):
                            rt.check(open("out").read() == ref, lambda: f"partial transfers change the solution file to {open('out').read()[:200]!r}")
                    return t

                KINDS = {"o": "PM", "O": "PMN", "r": "I1HR", "w": "NID1HR", "c": "I", "C": "IND"}
                for i, op in enumerate(ops):
                    for c in KINDS.get(op, ""):
                        if rt.take(lambda: f"{name} {fmt} start={where} fault {i}:{c} of {ops}"):
                            one([(i, c)], 1)
                        # a second fault at every later call (after a partial transfer there are more of them)
                        if c in "1HR" and (rt.thorough or name != "big"):
                            for i2 in range(i + 1, len(ops) + 2):
                                for c2 in "IN1H":
                                    if rt.take(lambda: f"{name} {fmt} start={where} faults {i}:{c} {i2}:{c2}"):
                                        one([(i, c), (i2, c2)], 2)
                # every transfer is partial
                for c in "1H":
                    if rt.take(lambda: f"{name} {fmt} start={where} first three transfers partial {c}"):
                        rs = [i for i, op in enumerate(ops) if op in "rw"]
                        one([(i, c) for i in rs[:1]] + [(rs[0] + q, c) for q in (1, 2)], 3)
    # output that cannot be created or written
    a = smalls[0]
    for fmt in FMTS:
        for out in ("/dev/full", "missing/out", ".", "inst.txt/x", "", "loop"):
            for full in (False, True):
                if rt.take(lambda: f"output {out!r} {fmt} stdout full={full}"):
                    clean()
                    put("inst.txt", WRITE[fmt](a))
                    os.symlink("loop", "loop")
                    with open("/dev/full" if full else "/dev/null", "w") as so:
                        r = Run(["-i", "inst.txt", "-p", fmt, "-o", out], stdout=so)
                    if out == "":
                        bad = answered(r) or (good_file(a, False, "inst.sol", None) if r.rc == 0 else None)
                        rt.check(not bad, bad)
                    else:
                        must_fail(r)
        # standard output that cannot be written: at any verbosity the answer is right or the run fails
        for v in range(6):
            if rt.take(lambda: f"standard output full, verbosity {v}, {fmt}"):
                clean()
                put("inst.txt", WRITE[fmt](a))
                with open("/dev/full", "w") as so:
                    r = Run(["-i", "inst.txt", "-p", fmt, "-o", "out", "-v", str(v)], stdout=so)
                bad = answered(r) or (good_file(a, False, "out", None) if r.rc == 0 else None)
                rt.check(not bad, bad)


rt.hang = 600
{"valid": mode_valid, "options": mode_options, "invalid": mode_invalid, "faults": mode_faults}[MODE]()
rc = rt.finish()
os.chdir("/")
shutil.rmtree(DIR, ignore_errors=True)
sys.exit(rc)
