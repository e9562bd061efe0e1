#!/usr/bin/env python3
"""trybug.py WORKDIR [--notest] [--nocheck] [--checks C01,C02] ID...: confirm planted bugs in a private copy of /repo.

WORKDIR is a scratch copy of the built /repo (cp -a). Everything runs in a mount namespace in which WORKDIR
is mounted over /repo, so that build.sh, test.sh, demo.sh and the checks see the change at the usual place."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "--notest" in args and not args.remove("--notest")
nocheck = "--nocheck" in args and not args.remove("--nocheck")
checks = None
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1].split(","); del args[i:i + 2]
work, ids = args[0], args[1:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(cmd, timeout=2000):
    t = time.time()
    env = dict(os.environ, MC_BUILD=work + ".build", VERIF_SEED="1", VERIF_TIER="quick", MC_EVIDENCE=work + ".evidence")
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {work} /repo && cd /repo && {cmd}"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return r.returncode, r.stdout, time.time() - t
def git(*a): return subprocess.run(["git", "-C", work, *a], capture_output=True, text=True)
for b in ids:
    d = f"{VERIF}/seeded/{b}"
    meta = json.load(open(d + "/meta.json"))
    git("checkout", "--", ".")
    out = [b, meta["property"]]
    rc, o, _ = ns(f"bash {d}/demo.sh", 320)
    out.append("clean-demo:" + ("ok" if rc == 0 else f"BAD rc={rc} {o[-500:]}"))
    r = git("apply", d + "/patch.diff")
    if r.returncode: print(b, "PATCH FAILS", r.stderr); continue
    if not notest:
        rc, o, _ = ns(f"bash /opt/vp/test.sh {work}.test.json")
        try: res = json.load(open(work + ".test.json"))
        except Exception: res = {"passed": []}
        miss = stable - set(res["passed"])
        out.append("tests:ok" if not miss else f"TESTS FAIL {len(miss)} {sorted(miss)[:4]} {o[-300:] if len(miss) > 100 else ''}")
    rc, o, _ = ns(f"bash {d}/demo.sh", 320)
    out.append(f"demo:fails" if rc != 0 else "DEMO PASSES")
    if not nocheck:
        for c in checks or [meta["property"]]:
            rc, o, t = ns(f"python3 {VERIF}/mc/check.py {c} --quick")
            v = re.findall(rf"^VIOLATION property={c} .*", o, re.M)
            out.append(f"{c}:" + (f"caught({len(v)}) {t:.0f}s" if rc == 1 and v else f"MISSED rc={rc} {t:.0f}s {o[-300:] if rc else ''}"))
    git("checkout", "--", ".")
    print(" | ".join(out), flush=True)
