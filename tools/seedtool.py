"""Planting bugs.   seedtool.py make SPEC.py [id..]   write /verif/seeded/<id> from a spec
                 seedtool.py validate [id..]     apply to scratch copies: tests pass, demo 0 / nonzero
                 seedtool.py catch [--all] [id..] run the property's check (or all) on a scratch copy with the patch
Scratch copies live under /tmp and are removed."""
import os, sys, json, subprocess, shutil, tempfile, runpy, textwrap
V = "/verif"; SD = V + "/seeded"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MPLCONFIGDIR="/opt/vp/mplconfig")
ENV.pop("SPICE", None)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def sh(cmd, cwd, env=ENV, t=1000):
    try: p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e: return 124, "timeout"
    return p.returncode, p.stdout


def make(spec, only):
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only: continue
        d = copy()
        try:
            for f, old, new in b["edits"]:
                p = d + "/repo/" + f; s = open(p).read()
                assert s.count(old) == 1, (b["id"], s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            rc, diff = sh("git diff", d + "/repo")
        finally: shutil.rmtree(d)
        o = SD + "/" + b["id"]; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write("import os, sys, warnings\nwarnings.filterwarnings('ignore')\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pyqlaw\n" + textwrap.dedent(b["demo"]).strip() + "\nprint('ok')\n")
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)


def ids(only): return [i for i in sorted(os.listdir(SD)) if not only or i in only]


def validate(only):
    for i in ids(only):
        d = copy()
        try:
            env = dict(ENV, PYTHONPATH=d + "/repo")
            rc0, o0 = sh("bash %s/%s/demo.sh" % (SD, i), d + "/repo", env, 300)
            rc, o = sh("git apply %s/%s/patch.diff" % (SD, i), d + "/repo")
            rc1, o1 = sh("bash %s/%s/demo.sh" % (SD, i), d + "/repo", env, 300)
            rt, ot = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --continue-on-collection-errors --ignore=examples/test_GTO2GEO_caseB.py --ignore=examples/test_GTO2GEO_perturbed.py tests examples", d + "/repo", env)
        finally: shutil.rmtree(d)
        fails = [l for l in ot.splitlines() if l.startswith("FAILED") and "test_gauss_intergate" not in l]
        ok = rc == 0 and rc0 == 0 and rc1 != 0 and not fails and "22 passed" in ot
        print("%-28s %s  clean %d patched %d apply %d tests %s" % (i, "OK " if ok else "BAD", rc0, rc1, rc, ot.strip().splitlines()[-1]), *fails, flush=True)
        if rc0: print(o0[-600:])
        if not ok and rc1 == 0: print(o1[-300:])


def catch(only, all_):
    for i in ids(only):
        d = copy()
        try:
            rc, o = sh("git apply %s/%s/patch.diff" % (SD, i), d + "/repo")
            prop = json.load(open("%s/%s/meta.json" % (SD, i)))["property"]
            props = ["C%02d" % n for n in range(1, 31)] if all_ else [prop]
            out = []
            for p in props:
                rc, o = sh("./run.sh " + p, V, dict(ENV, VERIF_REPO=d + "/repo"))
                hit = rc == 1 and "VIOLATION property=%s " % p in o
                if hit: out.append(p)
                elif rc not in (0, 1) or rc == 1: out.append("%s!rc%d" % (p, rc)); print(o[-800:])
                if p == prop: first = next((l for l in o.splitlines() if l.startswith("  ")), "")[:200]
            import fcntl; lk = open("/tmp/catch.lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
            F = V + "/tools/catch.json"; D = json.load(open(F)) if os.path.exists(F) else {}
            D[i] = dict(property=prop, caught=prop in out, also=[q for q in out if q != prop]) if all_ or i not in D else dict(D[i], property=prop, caught=prop in out)
            json.dump(D, open(F, "w"), indent=1, sort_keys=True)
            lk.close()
            print("%-28s %s %s | %s | %s" % (i, prop, "CAUGHT" if prop in out else "MISSED", " ".join(out), first), flush=True)
        finally: shutil.rmtree(d)


def table():
    D = json.load(open(V + "/tools/catch.json")); p = V + "/DESIGN.md"; s = open(p).read()
    L = ["| planted bug | breaks | needs | caught by its check |", "|---|---|---|---|"]
    for i in ids([]):
        m = json.load(open("%s/%s/meta.json" % (SD, i))); c = D.get(i)
        L.append("| %s | %s: %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], "not run" if c is None else ("yes" if c["caught"] else "no") + ("; also " + " ".join(c["also"]) if c.get("also") else "")))
    open(p, "w").write(s[:s.index("<!-- catch table -->")] + "<!-- catch table -->\n" + "\n".join(L) + "\n")


cmd, rest = sys.argv[1], sys.argv[2:]
if cmd == "make": make(rest[0], rest[1:])
elif cmd == "table": table()
elif cmd == "validate": validate(rest)
else: catch([r for r in rest if r != "--all"], "--all" in rest)
