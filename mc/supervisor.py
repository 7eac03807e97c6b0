"""Explicit model of engine availability (duty cycle and battery), replayed against recorded histories."""
import numpy as np
from . import ref


class Supervisor:
    def __init__(self, ON=1e16, OFF=0.0, b0=1.0, bmin=0.2, bmax=1.0, chg=0.0, dis=0.0, full=False):
        self.ON, self.OFF, self.bmin, self.bmax, self.chg, self.dis, self.full = ON, OFF, bmin, bmax, chg, dis, full
        self.avail, self.ton, self.toff, self.charging, self.b = True, 0.0, 0.0, False, b0; self.was = None

    def begin(self, t, h):
        """start of a step at t of requested duration h: (available, duration)"""
        if self.avail and abs(t-self.ton) > self.ON: self.avail = False; self.toff = t
        if not self.avail and abs(t-self.toff) > self.OFF: self.avail = True; self.ton = t
        if self.b <= self.bmin+1e-12: self.avail = False; self.toff = t; self.charging = True
        if self.full and self.charging and self.b < self.bmax: self.avail = False
        self.short = self.avail and self.b - self.dis*h < self.bmin
        if self.short: h = (self.b-self.bmin)/self.dis
        return self.avail, h

    def end(self, h):
        self.was = None if self.avail else self.charging
        if self.avail: self.b = min(max(self.b-self.dis*h, self.bmin), self.bmax)
        else:
            self.b = min(max(self.b+self.chg*h, self.bmin), self.bmax)
            if self.b >= self.bmax - 1e-15: self.charging = False
        return self.b

    def sync(self, b):
        """takes over the recorded level; whether a level within round-off of full is full is for the record to say"""
        if self.was and abs(b-self.bmax) < 1e-9: self.charging = b < self.bmax
        self.b = float(b)

    def key(self, t, u):
        q = lambda z: int(round(z/u)) if abs(z) < 1e6*u else 10**9
        return (self.avail, q(t-self.ton), q(t-self.toff), self.charging, q(self.b))


def requested(p, j, kind, sund):
    if not sund: return p.t_step
    x = np.array(p.states[j], float)
    a, e, th = ref.elem2kep(kind, x)
    E = ref.ta2E(th, e)
    return (p.t_step - e*(np.sin(E+p.t_step)-np.sin(E)))*np.sqrt(a**3/p.mu)


def replay(p, sup, kind, sund, r, cfg, coast=lambda t: False, undefined=lambda x: False, unit=2.0**-6):
    """None if the recorded history is the model's, else (message, details)"""
    n = len(p.times)-1
    for j in range(n):
        t = p.times[j]
        k0 = cfg + sup.key(t, unit)
        if abs(p.battery[j]-sup.b) > 1e-9: return "battery level %.15g, expected %.15g" % (p.battery[j], sup.b), dict(step=j)
        sup.sync(p.battery[j])                       # resynchronised: agreement was just checked
        avail, h = sup.begin(t, requested(p, j, kind, sund))
        got = p.times[j+1]-t
        if abs(got-h) > 1e-9*(1+abs(t))+1e-9*abs(h): return "step lasts %.12g, expected %.12g" % (got, h), dict(step=j, available=avail)
        want = int(avail and not undefined(p.states[j]) and not coast(t))
        if p.controls[j][2] != want: return "throttle %s, expected %d" % (p.controls[j][2], want), dict(step=j, available=avail)
        sup.end(got)
        r.tag("avail" if avail else "off"); r.tag("short", int(sup.short))
        k1 = cfg + sup.key(p.times[j+1], unit)
        r.states.add(k0); r.trans.add((k0, want, k1))
    if abs(p.battery[n]-sup.b) > 1e-9: return "battery level %.15g, expected %.15g" % (p.battery[n], sup.b), dict(step=n)
    b = np.array(p.battery, float)[1:]           # the first is as given
    if np.any(b < sup.bmin-1e-12) or np.any(b > sup.bmax+1e-12): return "battery level outside its limits", dict()
    return None
