"""Covering arrays: IPOG. covering(levels, t) -> integer array in which every combination of values of any t factors occurs in a row."""
import itertools, json, sys
import numpy as np


def missing(rows, lv, t):
    n = 0
    for S in itertools.combinations(range(len(lv)), t):
        ix = np.zeros(len(rows), int)
        for s in S: ix = ix*lv[s] + rows[:, s]
        n += int(np.prod([lv[s] for s in S])) - len(np.unique(ix))
    return n


def covering(lv, t):
    order = sorted(range(len(lv)), key=lambda j: -lv[j])
    L = [lv[j] for j in order]
    rows = np.array(list(itertools.product(*[range(l) for l in L[:t]])))
    for k in range(t, len(L)):
        Ss = list(itertools.combinations(range(k), t-1))
        sizes = [int(np.prod([L[s] for s in S])) for S in Ss]
        off = np.concatenate(([0], np.cumsum(sizes)))
        cov = np.zeros((off[-1], L[k]), bool)
        rng = np.random.RandomState(k)
        ext = np.full((len(rows), 1), -1)
        W = [np.array([np.prod([L[s] for s in S[i+1:]], dtype=int) for i in range(t-1)], int) for S in Ss]
        Sa = np.array(Ss); Wa = np.array(W)
        for i in range(len(rows)):
            r = rows[i][Sa]
            ok = (r >= 0).all(axis=1)
            ix = (off[:-1] + (r*Wa).sum(axis=1))[ok]
            gain = (~cov[ix]).sum(axis=0)
            best = np.flatnonzero(gain == gain.max())
            v = int(best[i % len(best)])
            ext[i] = v; cov[ix, v] = True
        rows = np.hstack([rows, ext])
        # vertical
        extra = []
        for n, S in enumerate(Ss):
            blk = cov[off[n]:off[n+1]]
            for ix, v in zip(*np.nonzero(~blk)):
                if cov[off[n]+ix, v]: continue
                vals = []
                z = int(ix)
                for s in reversed(S): vals.append(z % L[s]); z //= L[s]
                vals = dict(zip(reversed(S), vals)); vals[k] = int(v)
                for e in extra:
                    if all(e[s] in (-1, w) for s, w in vals.items()): break
                else:
                    e = np.full(k+1, -1); extra.append(e)
                for s, w in vals.items(): e[s] = w
                r = e[Sa]; ok = (r >= 0).all(axis=1)
                if e[k] >= 0: cov[(off[:-1] + (r*Wa).sum(axis=1))[ok], e[k]] = True
        if extra:
            E = np.array(extra)
            for c in range(k+1):
                m = E[:, c] < 0
                E[m, c] = rng.randint(0, L[c], m.sum())
            rows = np.vstack([rows, E])
        print(k, len(rows), file=sys.stderr, flush=True)
    out = np.zeros_like(rows)
    for c, j in enumerate(order): out[:, j] = rows[:, c]
    assert missing(out, lv, t) == 0
    return out


if __name__ == "__main__":
    lv = json.loads(sys.argv[1]); t = int(sys.argv[2])
    a = covering(lv, t)
    with open(sys.argv[3], "w") as f:
        f.write("%d %s\n" % (t, " ".join(map(str, lv))))
        for r in a: f.write("".join(map(str, r)) + "\n")
