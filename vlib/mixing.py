"""Mixing problems with their description, and an independent account of their phases and factors."""
import math, random
import numpy as np
from vlib import crystals as X
C = 299792458.0; EPS = 8.8541878128e-12
from scipy.constants import epsilon_0 as EPS

class Simple:
    """A user's own crystal, as the library allows (mode 'simple')."""

class Problem:
    def __init__(self, r, N, kind=None, wg=None, win=None, gouy=None, cache=None, field=None):
        from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
        import matplotlib.pyplot as plt
        self.N = N; self.r = r
        self.kind = kind or r.choice(['ppln', 'agse', 'ppln', 'ags', 'simple'])
        self.wg = (r.random() < .5 if wg is None else wg) and self.kind in ('ppln', 'simple')
        self.gouy = r.random() < .5 if gouy is None else gouy
        lp, ls = {'ppln': (r.uniform(1000, 1100), r.uniform(1400, 1700)), 'agse': (r.uniform(1500, 1600), r.uniform(2100, 2300)),
                  'ags': (r.uniform(1000, 1100), r.uniform(1250, 1400)), 'simple': (r.uniform(900, 1100), r.uniform(1400, 1600))}[self.kind]
        self.wl = [lp, ls, 1/(1/lp - 1/ls)]
        f = [X.C_NMPS/w for w in self.wl]
        # bandwidth between a very narrow one and what keeps the grids apart
        room = min(f[0] - f[1], f[1] - f[2], 2*(f[2] - X.C_NMPS/(5200 if self.kind == 'ppln' else 15000)))
        self.win = win or N/(room*10**r.uniform(-2.5, -.1))
        self.par = r.uniform(20, 150) if self.kind == 'ppln' else r.uniform(0, math.pi/2)
        self.L = 10**r.uniform(-3, -1.5)
        self.x = X.make('agse' if self.kind == 'simple' else self.kind, self.par, length=self.L, enable_caching=bool(r.random() < .5 if cache is None else cache))
        self.period = None
        if self.kind == 'ppln':
            self.period = self.L/r.uniform(3, 60); self.x.set_pp(lambda z: self.period)
        elif self.kind == 'simple':
            self.x.mode = 'simple'; self.x.deff = 10**r.uniform(-12, -10)
        self.deff = {'ppln': 14.9e-12, 'agse': 28.5e-12, 'ags': 8.69e-12}.get(self.kind) or self.x.deff
        if field is None: field = lambda: np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(N)])
        self.pump = X.pulse_on((N, self.win, lp), r, field()); self.sgnl = X.pulse_on((N, self.win, ls), r, field())
        self.sgnl.set_frep_MHz(self.pump.frep_MHz)
        self.w0 = 10**r.uniform(-5, -3.5); self.aeff = 10**r.uniform(0, 3)
        kw = dict(wg_mode=True, Aeff_squm=self.aeff) if self.wg else dict(pump_waist=self.w0)
        if self.gouy: kw['apply_gouy_phase'] = True
        self.d = D.dfg_problem(self.pump, self.sgnl, self.x, disable_SPM=True, **kw)
        plt.close('all')
        # the description
        self.w = [X.wl((N, self.win, l))*1e-9 for l in self.wl]              # metres
        self.W = [2*np.pi*C/w for w in self.w]
        ax = ('none',)*3 if self.kind == 'ppln' else ('none',)*3 if self.kind == 'simple' else ('mix', 'o', 'o')
        if self.kind == 'simple': ax = ('mix',)*3
        kk = 'agse' if self.kind == 'simple' else self.kind
        self.n = [X.index(kk, 'Gayer_5pctMg', self.par, a, w*1e9) for a, w in zip(ax, self.w)]
        self.k = [2*np.pi*n/w for n, w in zip(self.n, self.w)]
        self.zr = [math.pi*self.w0**2*self.n[0][N//2]/self.w[0][N//2]]*3
        self.order = (1, 2)
    def refocus(self, small):
        """The user refocuses the beams, so that this one is the smallest at the focus."""
        if self.wg: return
        d, r = self.d, self.r
        for j in self.order + ((0,) if small else ()):
            b, p = ((d.pump_beam, d.pump), (d.sgnl_beam, d.sgnl), (d.idlr_beam, d.idlr))[j]
            w = self.w0*(r.uniform(.3, .8) if j == small and j else r.uniform(1.3, 3))
            if small == 0 and r.random() < .5: w = self.w0*(self.w[j][self.N//2]/self.w[0][self.N//2]*self.n[0][self.N//2]/self.n[j][self.N//2])**.5
            b.set_waist_to_match_central_waist(p, w, d.crystal)
            self.zr[j] = math.pi*w**2*self.n[j][self.N//2]/self.w[j][self.N//2]
    def areas(self, z):
        return [math.pi*(zr*w/(math.pi*n))*(1 + ((z - self.L/2)/zr)**2) for zr, w, n in zip(self.zr, self.w, self.n)]
    def smallest(self, z):
        """The index of the beam with the smallest average spot; None when two are about equal."""
        m = [float(np.mean(np.sqrt(a))) for a in self.areas(z)]; q = sorted(m)
        return m.index(q[0]) if q[1] > q[0]*(1 + 1e-9) else None
    def sign(self, z):
        return 1 if self.period is None or (z/self.period) % 1 < .5 else -1
    def position(self, sign):
        """A position in the crystal where the poling has this sign."""
        if self.period is None: return self.r.uniform(0, self.L)
        k = self.r.randrange(int(self.L/self.period))
        return (k + (0 if sign > 0 else .5) + self.r.uniform(.02, .48))*self.period
    def phase(self, j, z):
        """exp(i k z), with the Gouy phase when asked for."""
        ph = np.exp(1j*(self.k[j]*z))
        if self.gouy and not self.wg: ph = ph*np.exp(1j*np.arctan((z - self.L/2)/self.zr[j]))
        return ph
    def factor(self, j, z):
        """field per square root of power; all three waves use the area of the smallest, frequency by frequency"""
        if self.wg: area = self.aeff*1e-12
        else: area = self.areas(z)[self.smallest(z)]
        return 1/np.sqrt(area*self.n[j]*EPS*C)
