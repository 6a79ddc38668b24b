"""Replays MixRun: rewritten mixing runs give the same fields; closed form, photon numbers and power along the way."""
import math, random
import numpy as np
from vlib.check import Mismatch
from vlib import crystals as X
C = 299792458.0
EPS0 = 8.8541878128e-12

KINDS = {1: 'triple', 2: 'flat', 3: 'flat', 4: 'guide', 5: 'focus', 6: 'angle', 7: 'flatfocus'}

def flat_crystal(n, length, deff):
    from pynlo.media.crystals.CrystalContainer import Crystal
    class Flat(Crystal):
        """A user's crystal without dispersion."""
        def __init__(s): Crystal.__init__(s, dict(length=length)); s.mode = 'simple'; s.deff = deff; s.n2 = 0.0
        def n(s, wl_nm, axis=None): return n + 0.0*wl_nm
    return Flat()

class Prob:
    def __init__(self, which, r, LEN):
        self.kind = KINDS[which]; self.which = which; self.LEN = LEN; self.bases = {}
        self.N = N = r.choice([4, 8, 8, 12, 16])
        lp, ls = {'angle': (r.uniform(1500, 1600), r.uniform(2100, 2300))}.get(self.kind, (r.uniform(1000, 1100), r.uniform(1400, 1700)))
        self.wl = [lp, ls, 1/(1/lp - 1/ls)]
        f = [X.C_NMPS/w for w in self.wl]
        room = min(f[0] - f[1], f[1] - f[2], 2*(f[2] - X.C_NMPS/(5200 if self.kind in ('guide', 'focus') else 15000)))
        self.win = N/(room*10**r.uniform(-2.0, -.3))
        self.n0 = r.uniform(1.2, 2.5); self.T = r.uniform(20, 150); self.theta = r.uniform(.6, .9)
        self.U = 10**r.uniform(-4.5, -3.3)                        # metres per unit
        if self.kind in ('guide', 'focus', 'angle'): self.U = 10**r.uniform(-4.7, -4.2)
        self.L = LEN*self.U*r.choice([1.0001, 1.0001, r.uniform(1.0, 1.3)])
        self.guide = self.kind in ('triple', 'flat', 'guide')
        self.aeff = 10**r.uniform(0, 2); self.w0 = 10**r.uniform(-4.8, -4)
        self.gouy = r.random() < .4
        self.W = [2*np.pi*C/(X.wl((N, self.win, l))*1e-9) for l in self.wl]
        self.deff = 10**r.uniform(-12, -10) if self.kind not in ('guide', 'focus', 'angle') else {'angle': 28.5e-12}.get(self.kind, 14.9e-12)
        # fields: strengths such that the conversion over the whole length is of order one
        g = lambda: np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(N)])*np.exp(-((np.arange(N) - N/2)/(N/4))**2)
        F = [g(), g()*r.uniform(.1, 1), g()*r.choice([0, .1, .5])]
        if self.kind == 'triple':
            a, b = r.choice([(a, b) for a in range(-N//2, N//2) for b in range(-N//2, N//2) if -N//2 <= a + b < N//2])
            self.bins = (a + b + N//2, a + N//2, b + N//2)
            F = [np.zeros(N, complex) for _ in range(3)]
            F[0][self.bins[0]] = np.exp(1j*r.uniform(0, 6)); F[1][self.bins[1]] = np.exp(1j*r.uniform(0, 6))*10**r.uniform(-1, .5)
        nn = self.n0 if self.kind in ('triple', 'flat', 'flatfocus') else 2.4 if self.kind == 'angle' else 2.2
        if self.guide: area = self.aeff*1e-12
        else: area = math.pi*self.w0**2
        self.P = 1/math.sqrt(area*nn*EPS0*C)
        S = sum(float(np.sum(abs(v)**2/w)) for v, w in zip(F, self.W))
        wc = [w[N//2] for w in self.W]
        gam = 2*self.deff*self.P*math.sqrt(wc[0]*wc[1]*wc[2])/(C*nn)
        self.amp = r.uniform(1.0, 2.2)/(gam*math.sqrt(S)*LEN*self.U)
        self.F = [self.amp*v for v in F]
        self.scale = max(np.max(abs(v)) for v in self.F)
        self.frep = r.choice([100., 1.])
    def crystal(self, d, w):
        k = 2.0**w['pow']; sg = -1 if w['flip'] else 1
        L = self.L*(1 + .7*w['long'])
        if self.kind in ('triple', 'flat', 'flatfocus'): x = flat_crystal(self.n0, L, 0)
        else: x = X.make('agse' if self.kind == 'angle' else 'ppln', self.theta if self.kind == 'angle' else self.T, length=L)
        x.deff = sg*self.deff/k
        if d:
            x.mode = 'PP'
            starts, per = [], []
            z = 0
            for h in d[::2]: starts.append(z*self.U); per.append(2*h*self.U); z += 2*h
            def pp(z):
                i = max([j for j, s in enumerate(starts) if z >= s - 1e-6*self.U] or [0])
                return per[i]
            x.pp = pp
        elif x.mode == 'PP': x.mode = 'simple'
        return x
    def problem(self, d, w, r, F=None):
        from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
        import matplotlib.pyplot as plt
        F = self.fields(self.F, w) if F is None else F
        p = X.pulse_on((self.N, self.win, self.wl[0]), r); s = X.pulse_on((self.N, self.win, self.wl[1]), r); p.set_AW(F[0]); s.set_AW(F[1])
        p.set_frep_MHz(self.frep); s.set_frep_MHz(self.frep)
        kw = dict(wg_mode=True, Aeff_squm=self.aeff*4.0**w['area']) if self.guide else dict(pump_waist=self.w0)
        if self.gouy: kw['apply_gouy_phase'] = True
        x = D.dfg_problem(p, s, self.crystal(d, w), disable_SPM=True, **kw)
        plt.close('all')
        return x
    def fields(self, F, w):
        """The rewriting w applied to the fields."""
        j = np.arange(self.N) - self.N//2
        roll = np.exp(-2j*np.pi*j*w['roll']/self.N)
        ph = [w['tp'], w['ts'], w['tp'] - w['ts']]
        k = 2.0**(w['pow'] + (w['area'] if self.guide else 0))
        return [v*roll*np.exp(2j*np.pi*q/16)*k*(-1 if w['flip'] == i + 1 else 1) for i, (v, q) in enumerate(zip(F, ph))]
    def plain(self): return dict(pow=0, area=0, tp=0, ts=0, roll=0, flip=0, long=0)

def march(P, x, y, a, b, n, scale):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    o = ode_solve.Output(n) if n else ode_solve.Output()
    i = ode_solve.ODEint(y, a*P.U, b*P.U, 1e-8*scale, 1e-8, P.U, 0.0, o, dopr853.StepperDopr853, x, dense=n > 0)
    i.integrate()
    return [o.ysave[k].copy() for k in range(o.count)] if n else None

def parts(P, y): return [y[k*P.N:(k + 1)*P.N] for k in range(3)]

def base(c, P, d, r, where):
    """The plain run with an output at every unit, and the facts that hold along it."""
    key = tuple(d)
    if key in P.bases: return P.bases[key]
    w = P.plain(); x = P.problem(d, w, r)
    y0 = np.hstack(P.F).astype(complex); y = y0.copy()
    if P.kind == 'triple' and np.max(abs(x.ystart[:2*P.N] - y0[:2*P.N])) > 1e-9*P.scale: raise Mismatch('%s: the start does not hold the input fields' % where)
    ys = march(P, x, y, 0, P.LEN, P.LEN, P.scale)
    if len(ys) != P.LEN + 1: raise Mismatch('%s: %d outputs for %d intervals' % (where, len(ys), P.LEN))
    if P.guide:
        num = np.array([[float(np.sum(abs(v)**2/W)) for v, W in zip(parts(P, q), P.W)] for q in ys]); tot = np.sum(num[0])
        pw = np.array([float(np.sum(abs(q)**2)) for q in ys])
        for nm, e in (('pump plus signal', num[:, 0] + num[:, 1]), ('signal minus idler', num[:, 1] - num[:, 2]), ('pump plus idler', num[:, 0] + num[:, 2])):
            if np.max(abs(e - e[0])) > 2e-6*tot: raise Mismatch('%s: photons of %s change along the crystal by %.1e (%s)' % (where, nm, np.max(abs(e - e[0]))/tot, P.kind))
        if np.max(abs(pw - pw[0])) > 2e-6*pw[0]: raise Mismatch('%s: power changes along the crystal by %.1e' % (where, np.max(abs(pw - pw[0]))/pw[0]))
        c.notes['largest_conversion'] = max(c.notes.get('largest_conversion', 0), float(np.max(abs(num[:, 0] - num[0, 0]))/tot))
    if P.kind == 'triple':
        from scipy.special import ellipj, ellipk
        bp, bs, bi = P.bins; wp, ws, wi = (P.W[k][b] for k, b in enumerate(P.bins))
        ap, as_ = P.F[0][bp]/math.sqrt(wp), P.F[1][bs]/math.sqrt(ws)
        S = abs(ap)**2 + abs(as_)**2; m = abs(ap)**2/S
        G = 2*P.deff*P.P*math.sqrt(wp*ws*wi)/(C*P.n0)
        z = np.arange(P.LEN + 1)*P.U
        cn = ellipj(ellipk(m) - G*math.sqrt(S)*z, m)
        ai = cn[1]*abs(ap)*1j*np.exp(1j*(np.angle(ap) - np.angle(as_)))*math.sqrt(wi)
        app = cn[0]*ap*math.sqrt(wp); ass = cn[2]*math.sqrt(S)*np.exp(1j*np.angle(as_))*math.sqrt(ws)
        for q in range(P.LEN + 1):
            want = np.zeros(3*P.N, complex); want[bp] = app[q]; want[P.N + bs] = ass[q]; want[2*P.N + bi] = ai[q]
            e = np.max(abs(ys[q] - want))/P.scale
            if not e < 1e-5: raise Mismatch('%s: three single bins after %d units: off by %.1e, pump %r signal %r idler %r, closed form %r %r %r' % (where, q, e, ys[q][bp], ys[q][P.N + bs], ys[q][2*P.N + bi], app[q], ass[q], ai[q]))
    P.bases[key] = ys
    return ys

def replay(c, tr, LEN):
    r = random.Random(tr['seed']); probs = {}; stats = [0.0]
    for k, t in enumerate(tr['h']):
        pl = t['plan']; w = pl['w']
        P = probs.setdefault(pl['prob'], None) or Prob(pl['prob'], r, LEN); probs[pl['prob']] = P
        where = 'plan %d' % k
        flat = P.kind in ('triple', 'flat')
        ref = base(c, P, [] if flat else pl['d'], r, where)
        sc = 2.0**(w['pow'] + (w['area'] if P.guide else 0))*P.scale
        y = np.hstack(P.fields(P.F, w)).astype(complex); x = None
        for i, q in enumerate(pl['pieces']):
            if x is None or q['fresh']: x = P.problem(pl['d'], w, r, F=parts(P, y)[:2] if r.random() < .5 else None)
            out = march(P, x, y, q['a'], q['b'], q['n'], sc)
            want = np.hstack(P.fields(parts(P, ref[t['z'][i]]), w))
            e = np.max(abs(y - want))/sc; stats.append(e)
            c.steps += 1
            if not e < 1e-5:
                j = int(np.argmax(abs(y - want)))
                raise Mismatch('%s: piece %d from %d to %d of %s differs from the plain run at %d by %.1e (%s bin %d, %s, design %s, %s)' % (where, i, q['a'], q['b'], [(v['a'], v['b']) for v in pl['pieces']], t['z'][i], e, ('pump', 'signal', 'idler')[j//P.N], j % P.N - P.N//2, P.kind, pl['d'], w))
            if out is not None:
                if len(out) != q['n'] + 1: raise Mismatch('%s: %d outputs for %d intervals' % (where, len(out), q['n']))
                for o in range(q['n'] + 1):
                    z = (q['a']*(q['n'] - o) + q['b']*o)/q['n']
                    if z != int(z): continue
                    z = int(z); zz = z if not flat else integral(pl['d'], z)
                    e = np.max(abs(out[o] - np.hstack(P.fields(parts(P, ref[zz]), w))))/sc
                    if not e < 1e-5: raise Mismatch('%s: output %d of %d from %d to %d differs from the plain run by %.1e (%s, design %s)' % (where, o, q['n'], q['a'], q['b'], e, P.kind, pl['d']))
    return max(stats)

def integral(d, z):
    s, t, g = 0, 0, 1
    for h in d:
        if z <= t + h: return s + g*(z - t)
        s += g*h; t += h; g = -g
    return s + g*(z - t)
