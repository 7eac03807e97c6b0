"""Runner: enumerates the cases of one check, runs them on the real code in parallel, reports and writes evidence."""
import os, sys, json, time, importlib, traceback, signal, warnings, multiprocessing, multiprocessing.connection

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")      # only for trying planted bugs on scratch copies; registered commands use /repo
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

CASE_LIMIT = 120 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 1200    # s; a run that does not end is a violation, not a hang of the check
STOP_AFTER = 5           # violations after which exploration stops
GRACE = 15               # s of further exploration after the first violation


class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout("case did not finish within %d s" % CASE_LIMIT)


class Res:
    """What one case reports: evaluations, non-trivial ones, violations, and model states/transitions/traces."""
    def __init__(self):
        self.n = 0; self.nt = 0; self.viol = []; self.states = set(); self.trans = set(); self.ntrans = 0
        self.traces = 0; self.sample = None; self.tags = {}

    def bad(self, msg, key=None, **detail):
        if len(self.viol) < 20:
            self.viol.append(dict(msg=msg, key=key or msg[:120], detail=_js(detail)))

    def tag(self, k, n=1):
        self.tags[k] = self.tags.get(k, 0) + n


def _js(o):
    import numpy as np
    if isinstance(o, dict): return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)): return [_js(v) for v in o]
    if isinstance(o, np.ndarray): return _js(o.tolist())
    if isinstance(o, np.generic): return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None: return o
    return repr(o)


_mod = None


def _quiet():
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1)


def _one(case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    r = Res()
    t0 = time.time()
    try:
        _mod.run_case(case, r)
    except CaseTimeout as e:
        r.bad("the run does not terminate: " + str(e), key="timeout", trace=traceback.format_exc()[-1500:])
    except Exception as e:
        r.bad("exception %s: %s" % (type(e).__name__, e), key="exception", trace=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    r.secs = time.time() - t0
    return case, r


def _worker(conn, cases):
    """runs the cases it is told by index, one message per case"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            idx = conn.recv()
            if idx is None: break
            for j in idx:
                _, r = _one(cases[j])
                conn.send((j, r))
            conn.send(None)
    except (EOFError, BrokenPipeError, OSError): pass
    os._exit(0)


def explore(cases):
    """Yields (case, result) for every case, from forked workers. Each worker has a pipe of its own and no lock is shared, so a worker can be
    killed at any time: one that dies or hangs in compiled code is replaced, and its case is tried once more (death) or reported (hang)."""
    nproc = min(8, max(1, os.cpu_count() or 1), max(1, len(cases)))
    size = max(1, min(16, len(cases) // (nproc * 8)))
    todo = [list(range(j, min(j+size, len(cases)))) for j in range(0, len(cases), size)][::-1]
    died = {}
    W = {}                                   # connection -> [pid, indices outstanding, since]
    def start():
        a, b = multiprocessing.Pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                for c in list(W): c.close()
                a.close(); _worker(b, cases)
            finally: os._exit(1)
        b.close(); W[a] = [pid, [], time.time()]
        feed(a)
    def feed(c):
        if not todo: return stop(c)
        W[c][1:] = [todo.pop(), time.time()]
        c.send(list(W[c][1]))
    def stop(c):
        pid = W.pop(c)[0]
        try: os.kill(pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(pid, 0); c.close()
    def lost(c, why):
        """the first outstanding case of this worker did not come back"""
        idx = W[c][1]; stop(c)
        if not idx: return None
        j = idx[0]; died[j] = died.get(j, 0)+1
        out = None
        if why == "hang" or died[j] > 1:
            r = Res(); r.secs = 0.0
            r.bad("the run does not terminate: no answer from compiled code" if why == "hang" else "the process running the case dies", key="timeout" if why == "hang" else "death")
            out = cases[j], r; idx = idx[1:]
        if idx: todo.append(idx)
        return out
    try:
        for _ in range(nproc):
            if todo: start()
        while W:
            for c in multiprocessing.connection.wait(list(W), timeout=5):
                try: m = c.recv()
                except (EOFError, OSError):
                    o = lost(c, "death")
                    if o: yield o
                    continue
                if m is None: feed(c); continue
                j, r = m
                W[c][1].remove(j); W[c][2] = time.time()
                yield cases[j], r
            for c in [c for c, w in W.items() if time.time()-w[2] > 1.2*CASE_LIMIT+20 and not c.poll()]:
                o = lost(c, "hang")
                if o: yield o
            while todo and len(W) < nproc: start()
    finally:
        for c in list(W): stop(c)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main(argv):
    global _mod
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    out = os.fdopen(os.dup(1), "w")
    if "-v" not in argv: _quiet()           # the code under test prints a lot
    import pyqlaw
    assert os.path.realpath(pyqlaw.__file__).startswith(REPO + "/"), pyqlaw.__file__
    _mod = importlib.import_module("mc.checks." + prop.lower())
    known = load_known(prop)
    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        case, r = _one(d["case"])
        for v in r.viol: print(json.dumps(v, indent=1), file=out)
        print("violations:", len(r.viol), file=out); out.flush()
        return 1 if r.viol else 0
    cases = list(_mod.cases(tier))
    tot = Res(); samples = []; viols = []; knownhit = {}; done = 0; slow = []
    warm = getattr(_mod, "warm", None)
    stop = False
    try:
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(2*CASE_LIMIT)
        if warm: warm()                      # compile before forking
    except Exception as e:
        viols.append((dict(warm=True), dict(msg="exception in warm-up %s: %s" % (type(e).__name__, e), key="exception",
                                            detail=dict(trace=traceback.format_exc()[-3000:]))))
    finally: signal.alarm(0)
    first = None
    runs = explore(cases)
    try:
        for case, r in runs:
            done += 1
            tot.n += r.n; tot.nt += r.nt; tot.states |= r.states; tot.trans |= r.trans; tot.traces += r.traces; tot.ntrans += r.ntrans
            for k, v in r.tags.items(): tot.tag(k, v)
            slow.append((r.secs, case))
            if r.sample is not None and len(samples) < 4: samples.append(_js(r.sample))
            for v in r.viol:
                hit = [k for k in known if k["key"] == v["key"]]
                if hit: knownhit[hit[0]["key"]] = hit[0]
                else: viols.append((case, v))
            if viols and first is None: first = time.time()
            if viols and (len(viols) >= STOP_AFTER or time.time() - first > GRACE):
                stop = True; break
    finally:
        runs.close()
    level = _mod.LEVEL
    full = not stop
    cov = dict(rule=_mod.RULE, samples=samples or [_js(cases[0])] if cases else [], cases=done, cases_enumerated=len(cases),
               exhaustive=full, evaluations=tot.n)
    if level == "model_checking":
        cov.update(states=len(tot.states), transitions=len(tot.trans) or tot.ntrans, traces_validated_against_impl=tot.traces)
    else:
        cov.update(distinct_nontrivial=tot.nt)
    if tot.nt and "distinct_nontrivial" not in cov: cov["nontrivial"] = tot.nt
    if tot.tags: cov["outcomes"] = dict(sorted(tot.tags.items()))
    cov["bounds"] = getattr(_mod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(_mod, "BOUNDS", None), dict) else getattr(_mod, "BOUNDS", "")
    # vacuity: a check that saw none of what it is about proves nothing
    need = getattr(_mod, "NEED", {})
    if full and not viols:
        for k, lo in need.items():
            if tot.tags.get(k, 0) < lo:
                viols.append((dict(vacuity=k), dict(msg="coverage goal %r reached only %d times (expected at least %d): "
                              "behaviour the property speaks about never occurs" % (k, tot.tags.get(k, 0), lo), key="vacuous", detail={})))
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), file=out)
    if viols:
        case, v = viols[0]
        path = os.path.join(evdir, "replay-%s.json" % prop)
        json.dump(_js(dict(property=prop, case=case, violation=v, others=[dict(case=c, violation=w) for c, w in viols[1:6]])), open(path, "w"), indent=1)
        for c, w in viols[:5]:
            print("  %s  %s  %s" % (w["msg"][:600], json.dumps(_js(c))[:400], json.dumps(_js(w["detail"]))[:900]), file=out)
        print("VIOLATION property=%s replay=%s" % (prop, path), file=out)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(_mod, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    json.dump(_js(ev), open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    slow.sort(key=lambda x: -x[0])
    print("%s %s: %d/%d cases, %d evaluations, %d nontrivial, %d states, %d transitions, %d traces, %d violations, %.1f s (slowest case %.1f s)" % (
        prop, tier, done, len(cases), tot.n, tot.nt, len(tot.states), len(tot.trans) or tot.ntrans, tot.traces, len(viols), time.time() - t0,
        slow[0][0] if slow else 0), file=out)
    if "--tags" in argv: print(json.dumps(cov.get("outcomes"), indent=1), file=out)
    out.flush()
    return 1 if viols else 0


if __name__ == "__main__":
    from mc import core                     # one copy of this module, so that checks share Res
    sys.exit(core.main(sys.argv[1:]))
