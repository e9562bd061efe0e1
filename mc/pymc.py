"""Runtime of the harnesses written in Python: same protocol as mc.hpp."""
import json, mmap, os, random, signal, struct, sys


class Runtime:
    def __init__(self, argv):
        a = {}
        for k in range(0, len(argv) - 1, 2):
            a[argv[k]] = argv[k + 1]
        self.args = a
        self.shard, self.nshards = int(a.get("--shard", 0)), int(a.get("--nshards", 1))
        self.only = int(a["--case"]) if "--case" in a else None
        self.thorough = a.get("--tier") == "thorough"
        self.hang = int(a.get("--hang", 60))
        self.out = open(a["--out"], "w") if "--out" in a else os.fdopen(os.dup(1), "w")
        self.slot = None
        if "--slot" in a:
            fd = os.open(a["--slot"], os.O_RDWR | os.O_CREAT, 0o600)
            os.ftruncate(fd, 4096)
            self.slot = mmap.mmap(fd, 4096)
            os.close(fd)
        self.bm = None
        if "--bitmap" in a:
            fd = os.open(a["--bitmap"], os.O_RDWR)
            self.bm = mmap.mmap(fd, os.fstat(fd).st_size)
            os.close(fd)
        self.next_id = self.executed = self.transitions = self.validated = self.fails = 0
        self.cur = 0
        self.counters, self.samples, self.desc = {}, [], lambda: ""
        self.set_slot(2**64 - 1)

    def set_slot(self, v):
        if self.slot:
            self.slot[0:8] = struct.pack("<Q", v)

    def take(self, desc):
        i = self.next_id
        self.next_id += 1
        if (i != self.only) if self.only is not None else (i % self.nshards != self.shard):
            return False
        # CPU-time limit per case, enforced by the kernel even while C++ code runs
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.hang)
        self.cur = i
        self.set_slot(i)
        self.executed += 1
        self.desc = desc
        if self.only is not None:
            print(json.dumps({"case": i, "desc": desc()}), file=self.out, flush=True)
        elif len(self.samples) < 2 and (self.executed == 1 or self.executed % 97 == 0):
            self.samples.append(desc())
        return True

    def state(self, *key):
        if self.bm is None:
            return
        h = hash_of(key) % (len(self.bm) * 8)
        self.bm[h >> 3] |= 1 << (h & 7)  # shards may race; the count is a lower bound

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def check(self, ok, what):
        if not ok:
            self.fail(what() if callable(what) else what)
        return ok

    def fail(self, what):
        if self.fails < 5:
            print(json.dumps({"violation": self.cur, "what": what[:3000], "desc": self.desc()[:3000]}), file=self.out, flush=True)
        self.fails += 1
        if self.fails >= 20:
            sys.exit(self.finish())

    def finish(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.set_slot(2**64 - 1)
        print(json.dumps({"stats": {"total_cases": self.next_id, "executed": self.executed, "transitions": self.transitions,
                                    "validated": self.validated, "fails": self.fails, "counters": self.counters,
                                    "samples": self.samples}}), file=self.out, flush=True)
        return 1 if self.fails else 0


def hash_of(key):
    h = 0xcbf29ce484222325
    for b in repr(key).encode():
        h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    return h ^ (h >> 29)
