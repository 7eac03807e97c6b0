"""A scripted environment for QLaw.solve and stateless search over everything it can choose."""
import numpy as np
from . import ref


class Env:
    """zones: offsets of the semi-major axis an external acceleration steers to in a step; coast: threshold callable may stop the engine"""
    def __init__(self, kind, mu=1.0, zones=None, coast=True, a0=1.0, e0=0.2, dt=None):
        self.kind, self.mu, self.zones, self.coast, self.a0, self.e0, self.dt = kind, mu, zones, coast, a0, e0, dt
        self.start([])

    def start(self, script):
        self.script = script; self.log = []; self.acc = []; self.asked = []

    def choose(self, n):
        i = len(self.log)
        c = self.script[i] if i < len(self.script) else 0
        self.log.append((c, n))
        return c

    def eta(self, t, oe, mass, battery):
        self.asked.append((float(t), np.array(oe, float), float(mass), float(battery)))
        return [0.0, 2.0][self.choose(2)] if self.coast else 0.0

    def get_perturbations_RTN(self, t, oe, elements_type):
        if not self.zones: return np.zeros(3)
        goal = self.a0 + self.zones[self.choose(len(self.zones))]
        B, _ = ref.gauss(self.kind, oe, self.mu)
        kep = self.kind == "keplerian"
        e = oe[1] if kep else np.hypot(oe[1], oe[2])
        be = B[1] if kep else (oe[1]*B[1]+oe[2]*B[2])/e
        p = np.linalg.solve(np.array([B[0][:2], be[:2]])*self.dt, [goal-oe[0], self.e0-e])
        a = np.array([p[0], p[1], 0.0])
        self.acc.append(a.copy())
        return a


def dfs(run, pre=()):
    """run(script) -> log of (choice, number of alternatives); visits every sequence of choices beginning with pre"""
    script = list(pre)
    while True:
        log = run(script)
        if log is None: return
        k = len(log)-1
        while k >= len(pre) and log[k][0] == log[k][1]-1: k -= 1
        if k < len(pre): return
        script = [a for a, _ in log[:k]] + [log[k][0]+1]
