"""C25 / C26: the Python solver over all call histories up to a depth, against a reference model whose
answers come from the C++ solver and from exhaustive enumeration of covers.
  --mode histories   all sequences of valid calls                       (C25)
  --mode params      parameters, seeds and larger instances             (C25)
  --mode invalid     an invalid call inserted at every position         (C26)
"""
import ctypes, itertools, math, os, struct, sys

build = sys.argv[sys.argv.index("--build") + 1]
sys.path.insert(0, os.path.join(build, "py"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import Runtime
import pycft

args = sys.argv[1:]
k = args.index("--build")
rt = Runtime(args[:k] + args[k + 2:])
MODE = rt.args["--mode"]
SCRATCH = os.environ.get("MC_SCRATCH", ".")
DIR = os.path.join(SCRATCH, f"py-{os.getpid()}")
os.makedirs(DIR, exist_ok=True)

lib = ctypes.CDLL(os.path.join(build, "libpyoracle.so"))


class P(ctypes.Structure):
    _fields_ = [("seed", ctypes.c_ulonglong), ("heur_iters", ctypes.c_ulonglong)] + \
               [(n, ctypes.c_double) for n in ("time_limit", "epsilon", "alpha", "beta", "abs_exit", "rel_exit", "min_fixing")]


DEFAULTS = dict(seed=0, time_limit=float("inf"), epsilon=0.999, heur_iters=250, alpha=1.1, beta=1.0,
                abs_subgrad_exit=1.0, rel_subgrad_exit=0.001, min_fixing=0.3)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


cache = {}


def oracle(sets, nrows, params, warm):
    """(columns, cost, lower bound, multipliers) of the C++ solver on the same call."""
    key = (tuple(sets), nrows, tuple(sorted(params.items())), warm)
    if key in cache:
        return cache[key]
    p = P(params["seed"], params["heur_iters"], params["time_limit"], params["epsilon"], params["alpha"], params["beta"],
          params["abs_subgrad_exit"], params["rel_subgrad_exit"], params["min_fixing"])
    n = len(sets)
    begs, idxs = [0], []
    for e, _ in sets:
        idxs += e
        begs.append(len(idxs))
    ci = ctypes.c_int
    sel = (ci * max(1, n))()
    mu = (ctypes.c_double * max(1, nrows))()
    cost, lb = ctypes.c_double(), ctypes.c_double()
    w, wc = warm if warm else ((), 0.0)
    r = lib.oracle_run(ctypes.byref(p), nrows, n, (ci * len(begs))(*begs), (ci * max(1, len(idxs)))(*idxs),
                       (ctypes.c_double * max(1, n))(*[c for _, c in sets]), len(w), (ci * max(1, len(w)))(*w), ctypes.c_double(wc),
                       sel, ctypes.byref(cost), ctypes.byref(lb), mu)
    res = (tuple(sel[:r]), cost.value, lb.value, tuple(mu[:nrows])) if r >= 0 else None
    if len(cache) > 20000:
        cache.clear()
    cache[key] = res
    return res


def optimum(sets, nrows):
    if nrows > 12:
        return None
    full = (1 << nrows) - 1
    best = [math.inf] * (full + 1)
    best[0] = 0.0
    masks = [(sum(1 << i for i in set(e)), c) for e, c in sets]
    for s in range(full):
        if best[s] == math.inf:
            continue
        low = 0
        while s >> low & 1:
            low += 1
        for m, c in masks:
            if m >> low & 1 and best[s] + c < best[s | m]:
                best[s | m] = best[s] + c
    return best[full]


def distinct(e):
    return tuple(dict.fromkeys(e))


class Model:
    """What a user may assume."""

    def __init__(self):
        self.sets, self.nrows = [], 0
        self.result = None      # (columns, cost, lb, multipliers)
        self.start = None       # starting solution of a file
        self.prev_cost = None   # answer for the same elements, if any

    def add(self, e, c):
        e = distinct(e)
        if max(e) >= self.nrows:
            self.nrows = max(e) + 1
            self.result = self.start = self.prev_cost = None
        self.sets.append((e, f32(c)))
        return len(self.sets) - 1

    def load(self, sets, nrows, start):
        self.sets, self.nrows = [(distinct(e), f32(c)) for e, c in sets], nrows
        self.result, self.start, self.prev_cost = None, start, None

    def solvable(self):
        seen = set()
        for e, _ in self.sets:
            seen.update(e)
        return self.nrows > 0 and len(seen) == self.nrows

    def solve(self, params):
        warm = (self.result[0], self.result[1]) if self.result else self.start
        self.result = oracle(self.sets, self.nrows, params, warm)


def queries(s):
    sol, mu = s.get_solution(), s.get_dual_multipliers()
    return (None if sol is None else tuple(sol), s.get_cost(), s.get_lower_bound(), None if mu is None else tuple(mu))


def compare(s, m, what):
    """Everything that can be observed agrees with the model."""
    try:
        q = queries(s)
    except Exception as e:
        return rt.fail(f"{what}: a query raises {e!r}")
    rt.transitions += 1
    if m.result is None:
        rt.check(q[0] is None and q[1] is None and q[2] in (0, None) and q[3] is None, lambda: f"{what}: queries report {q} though nothing is solved")
    else:
        rt.check(q == m.result, lambda: f"{what}: queries report {q}, the C++ solver gives {m.result}")
    rt.state(tuple(m.sets), m.result, m.start)
    return q


def after_solve(s, m, what):
    q = compare(s, m, what)
    if not q or m.result is None:
        return
    sol, cost, lb, mu = q
    if sol is None or cost is None:
        return
    covered = set()
    ok = len(set(sol)) == len(sol) and all(0 <= j < len(m.sets) for j in sol)
    rt.check(ok, lambda: f"{what}: invalid set indexes {sol}")
    if not ok:
        return
    for j in sol:
        covered.update(m.sets[j][0])
    rt.check(len(covered) == m.nrows, lambda: f"{what}: the solution {sol} covers {sorted(covered)} of {m.nrows} elements")
    true = sum(m.sets[j][1] for j in sol)
    scale = 1 + sum(abs(c) for _, c in m.sets)
    rt.check(abs(true - cost) <= 1e-5 * scale, lambda: f"{what}: cost {cost}, the sets cost {true}")
    opt = optimum(m.sets, m.nrows)
    if opt is not None:
        rt.check(lb <= opt + 1e-4 * scale, lambda: f"{what}: lower bound {lb} above the optimum {opt}")
    rt.check(len(mu) == m.nrows and all(math.isfinite(u) and u >= 0 for u in mu), lambda: f"{what}: multipliers {mu} for {m.nrows} elements")
    if m.prev_cost is not None:
        rt.check(cost <= m.prev_cost, lambda: f"{what}: re-solving gives {cost}, before {m.prev_cost}")
    m.prev_cost = cost
    rt.validated += 1


def write(name, text):
    p = os.path.join(DIR, name)
    with open(p, "w") as f:
        f.write(text)
    return p


FILES = {
    "rail": (write("a.rail", "3 4\n1 1 1\n2 2 1 2\n1.5 2 2 3\n4 3 1 2 3\n"), "RAIL",
             [((0,), 1), ((0, 1), 2), ((1, 2), 1.5), ((0, 1, 2), 4)], 3, None),
    "cvrp": (write("a.cvrp", "2 3\n5 5 0 1\n1 1 0\n1 1 1\n0\n"), "CVRP", [((0, 1), 5), ((0,), 1), ((1,), 1)], 2, ((0,), 5.0)),
    "scp": (write("a.scp", "2 3\n1 2 9\n2\n1 3\n2\n2 3\n"), "SCP", [((0,), 1), ((1,), 2), ((0, 1), 9)], 2, None),
    "mps": (write("a.mps", "NAME x\nROWS\n N obj\n G r1\n G r2\nCOLUMNS\n c1 obj 1 r1 1\n c1 r2 1\n c2 obj 0.5 r2 1\nRHS\n RHS r1 1 r2 1\nENDATA\n"), "MPS",
            [((0, 1), 1), ((1,), 0.5)], 2, None),
}


def apply(s, m, op):
    """Executes one valid call on both; checks its outcome."""
    kind = op[0]
    what = f"after {op}"
    try:
        if kind == "add":
            e = op[1]
            r = s.add_set(e if not isinstance(e, tuple) else list(e), cost=op[2])
            w = m.add(op[1], op[2])
            rt.check(r == w, lambda: f"add_set returns {r}, expected {w}")
            compare(s, m, what)
        elif kind == "file":
            path, parser, sets, nrows, start = FILES[op[1]]
            s.from_file(path, parser)
            m.load(sets, nrows, start)
            compare(s, m, what)
        elif kind == "solve":
            params = dict(DEFAULTS, **op[1])
            if not m.solvable():
                try:
                    s.solve(verbose=0, **op[1])
                except Exception:
                    compare(s, m, what + " (refused)")
                    return
                rt.fail("solve() is not refused though an element is uncovered or there is nothing to cover")
                return
            s.solve(verbose=0, **op[1])
            m.solve(params)
            after_solve(s, m, what)
    except Exception as e:
        rt.fail(f"{op} raises {e!r}")


def run_history(hist):
    s, m = pycft.SetCoverSolver(), Model()
    compare(s, m, "on a new object")
    for op in hist:
        apply(s, m, op)
        if rt.fails:
            return


QUICK = {"heur_iters": 5, "epsilon": 0.01}
A = [("add", (0,), 1), ("add", (0, 1), 1.5), ("add", (1, 1), 0), ("add", (1, 2), 2.5), ("add", (2, 0), 1), ("add", (0, 1, 2), 4.25)]
S = [("solve", {}), ("solve", dict(QUICK, seed=1))]
F = [("file", n) for n in FILES]


def histories():
    depth = 6 if rt.thorough else 5
    alpha = A + S + F[:2]
    tail_alpha = alpha
    for d in range(1, depth + 1):
        for head in itertools.product(alpha, repeat=min(2, d)):
            if not rt.take(lambda: f"all histories of {d} calls beginning with {head}"):
                continue
            for tail in itertools.product(tail_alpha, repeat=d - len(head)):
                # what follows the last solve or load cannot be observed: skip histories ending in two additions
                if d >= 4 and len(tail) >= 2 and tail[-1][0] == "add" and tail[-2][0] == "add":
                    continue
                h = head + tail
                if rt.only is not None:
                    rt.desc = lambda: f"history {h}"
                run_one(h)
    # every order of adding all sets, with a solve at any subset of the positions
    for perm in itertools.permutations(A):
        if not rt.take(lambda: f"every placement of solves while adding {[p[1] for p in perm]}"):
            continue
        for mask in range(1 << len(perm)):
            if not rt.thorough and bin(mask).count("1") > 2 and mask != (1 << len(perm)) - 1:
                continue
            h = []
            for i, p in enumerate(perm):
                h.append(p)
                if mask >> i & 1:
                    h.append(S[i % 2])
            run_one(tuple(h) + (S[0],))
    # loading any file at any point, then using the object further
    for f in F + [None]:
        for g in F:
            for first in A + S:
                if not rt.take(lambda: f"{f}, {first}, {g}, then all pairs of calls and two solves"):
                    continue
                for rest in itertools.product(A + S, repeat=2):
                    run_one(((f,) if f else ()) + (first, g) + rest + (S[0], S[1]))


def run_one(h):
    before = rt.fails
    s, m = pycft.SetCoverSolver(), Model()
    old = rt.desc
    rt.desc = lambda: f"history {h}"
    for op in h:
        apply(s, m, op)
        if rt.fails > before:
            break
    rt.desc = old


def circulant(n, ds, costs):
    return [("add", tuple(sorted((j + d) % n for d in ds)), costs(j)) for j in range(n)]


def params_mode():
    insts = []
    for n in range(5, 12 if rt.thorough else 9):
        for ds in ((0, 1), (0, 1, 3), (0, 2)):
            insts.append(circulant(n, ds, lambda j: 1 + (j * 7 % 11) * 0.37))
            insts.append(circulant(n, ds, lambda j: 10.0))
    insts.append([("add", tuple(x), 1 + 0.1 * k) for k, x in enumerate(itertools.combinations(range(7), 3))])
    insts.append([("add", (i, 20 + i), 1) for i in range(20)] + [("add", tuple(range(20)), 8.5), ("add", tuple(range(20, 40)), 30)])
    ps = [{}, {"seed": 1}, {"seed": 2**63}, {"heur_iters": 0}, {"heur_iters": 1, "epsilon": 0.01}, {"epsilon": 0.0, "heur_iters": 10}, {"epsilon": 0.01, "alpha": 3.0, "heur_iters": 7},
          {"beta": 0.9, "heur_iters": 5}, {"beta": 1.2, "epsilon": 0.01, "heur_iters": 5}, {"abs_subgrad_exit": 0.0, "epsilon": 0.01, "heur_iters": 5},
          {"abs_subgrad_exit": 1e9, "rel_subgrad_exit": 1e9, "epsilon": 0.01, "heur_iters": 5}, {"rel_subgrad_exit": 0.0, "epsilon": 0.01, "heur_iters": 5},
          {"min_fixing": 1.0, "epsilon": 0.01, "heur_iters": 5}, {"min_fixing": 0.01, "epsilon": 0.01, "heur_iters": 5}, {"time_limit": -1.0}, {"time_limit": -1.0, "seed": 5}]
    for seed in range(8 if rt.thorough else 3):
        ps.append({"seed": seed + 10, "epsilon": 0.01, "heur_iters": 20})
    base = {}
    for k, inst in enumerate(insts):
        for p in ps:
            if not rt.take(lambda: f"instance {k} ({len(inst)} sets), parameters {p}, solved three times and extended"):
                continue
            h = tuple(inst) + (("solve", p), ("solve", p), ("solve", {}))
            big = max(max(o[1]) for o in inst) + 1
            run_one(h + (("add", (big,), 0.5), ("solve", p), ("add", (0, big), 0.25), ("solve", p)))
            m = Model()
            for o in inst:
                m.add(o[1], o[2])
            a, b = oracle(m.sets, m.nrows, dict(DEFAULTS, **p), None), oracle(m.sets, m.nrows, DEFAULTS, None)
            if a != b:
                rt.count("differs_from_default_for_" + "_".join(sorted(p)))


def boom():
    yield 0
    raise KeyError("boom")


BAD_RAIL = write("bad.rail", "3 2\n1 1 1\n1 1 2\n")
TRUNC = write("trunc.rail", "3 4\n1 1 1\n2 2 1")
GARBAGE = write("garbage", "\x01\x02 hello")
INVALID = [
    ("negative cost", lambda s: s.add_set([0, 1], cost=-1)),
    ("negative cost, new element", lambda s: s.add_set([0, 5], cost=-0.5)),
    ("nan cost", lambda s: s.add_set([0, 6], cost=float("nan"))),
    ("infinite cost", lambda s: s.add_set([0, 1], cost=float("inf"))),
    ("minus infinite cost", lambda s: s.add_set([0], cost=-float("inf"))),
    ("cost beyond the real type", lambda s: s.add_set([0, 3], cost=1e39)),
    ("text cost", lambda s: s.add_set([0, 4], cost="1")),
    ("no cost value", lambda s: s.add_set([0, 4], cost=None)),
    ("empty set", lambda s: s.add_set([], cost=1)),
    ("negative element", lambda s: s.add_set([-1], cost=1)),
    ("negative element after a new one", lambda s: s.add_set([7, -1], cost=1)),
    ("fractional element", lambda s: s.add_set([0, 0.5], cost=1)),
    ("large fractional element", lambda s: s.add_set([8.5], cost=1)),
    ("text element", lambda s: s.add_set([0, "1"], cost=1)),
    ("no elements", lambda s: s.add_set(None, cost=1)),
    ("element None", lambda s: s.add_set([None], cost=1)),
    ("largest element", lambda s: s.add_set([32767], cost=1)),
    ("too large element", lambda s: s.add_set([0, 32768], cost=1)),
    ("much too large element", lambda s: s.add_set([65536, 1], cost=1)),
    ("huge element", lambda s: s.add_set([10**30], cost=1)),
    ("failing iterator", lambda s: s.add_set(boom(), cost=1)),
    ("missing file", lambda s: s.from_file(os.path.join(DIR, "nothing-here"))),
    ("directory", lambda s: s.from_file(DIR)),
    ("row without column", lambda s: s.from_file(BAD_RAIL)),
    ("truncated file", lambda s: s.from_file(TRUNC)),
    ("garbage file", lambda s: s.from_file(GARBAGE)),
    ("unknown parser", lambda s: s.from_file(FILES["rail"][0], "XYZ")),
    ("negative seed", lambda s: s.solve(seed=-1, verbose=0)),
    ("text time limit", lambda s: s.solve(time_limit="x", verbose=0)),
    ("fractional iterations", lambda s: s.solve(heur_iters=1.5, verbose=0)),
]


def try_invalid(s, name, f):
    rt.transitions += 1
    try:
        f(s)
    except Exception:
        return True
    rt.fail(f"{name}: no exception is raised")
    return False


def invalid():
    alpha = [A[0], A[1], A[3], A[5], S[1], F[0], F[1]]
    depth = 5 if rt.thorough else 4
    for d in range(0, depth + 1):
        for h in itertools.product(alpha, repeat=d):
            if d >= 3 and not any(o[0] == "solve" for o in h):
                continue
            if not rt.take(lambda: f"each invalid call at each position of {h}, then solve"):
                continue
            for pos in range(d + 1):
                if d == depth and pos < d - 2:
                    continue  # earlier positions are those of shorter histories with the same prefix
                for name, f in INVALID:
                    before = rt.fails
                    s, m = pycft.SetCoverSolver(), Model()
                    rt.desc = lambda: f"{name} at position {pos} of {h}"
                    for i, op in enumerate(h + (S[1],)):
                        if i == pos:
                            if not try_invalid(s, name, f):
                                break
                            compare(s, m, f"after the refused call ({name})")
                        apply(s, m, op)
                        if rt.fails > before:
                            break
    # two invalid calls in a row, and every invalid call between all others
    for (n1, f1), (n2, f2) in itertools.product(INVALID, repeat=2):
        if not rt.take(lambda: f"{n1}, then {n2}, around additions and solves"):
            continue
        s, m = pycft.SetCoverSolver(), Model()
        for op in (None, A[0], None, S[1], None, A[3], None, A[1], S[1], None, S[0]):
            if op is None:
                if not (try_invalid(s, n1, f1) and try_invalid(s, n2, f2)):
                    break
                compare(s, m, f"after {n1} and {n2}")
            else:
                apply(s, m, op)


{"histories": histories, "params": params_mode, "invalid": invalid}[MODE]()
sys.exit(rt.finish())
