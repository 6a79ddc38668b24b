"""Replays Gnlse: fibre propagation solves the generalised nonlinear Schroedinger equation."""
import math, random
import numpy as np
from vlib.check import Mismatch
from vlib import fibres as F

def response(kind, N, win, f_R, f_R0, tau1, tau2):
    """The documented responses at the grid's difference frequencies, N values from -N/2."""
    V = (np.arange(N) - N//2)*2*np.pi/win
    if kind == 'none': return np.ones(N)
    if kind == 'frequency':
        return 1 - f_R0 + f_R0*(tau1**2 + tau2**2)/(tau1**2 + tau2**2 - 2j*V*tau1**2*tau2 - (V*tau1*tau2)**2)
    t = np.arange(N//2)*win/N
    sine = (tau1**2 + tau2**2)/(tau1*tau2**2)*np.exp(-t/tau2)*np.sin(t/tau1)
    if kind == 'simple': h, f = sine, f_R
    else:
        tb = .096; f = .245
        h = (.75 + .04)*sine + .21*(2*tb - t)/tb**2*np.exp(-t/tb)
    h = h/np.trapz(np.r_[0, h], dx=win/N)                     # zero at negative times
    return 1 - f + f*(h[None, :]*np.exp(1j*V[:, None]*t[None, :])).sum(1)*win/N

class Couple:
    """The specification's table of drives for one field, applied with a response."""
    def __init__(self, st):
        N = self.N = st['n']; h = N//2
        self.W = np.array([[q['w'] for q in row] for row in st['rows']]); self.D = np.array([[q['d'] for q in row] for row in st['rows']])
        self.S = np.array([[complex(*q['s']) for q in row] for row in st['rows']])
        self.f = np.array([complex(*x) for x in st['f']])
        # the same table as indices, for other fields on this grid
        self.l = np.arange(N)[None, :] + 0*self.D
    def exact(self, R, s): return (self.S*(1 + s*self.W)*R[self.D + self.N//2]).sum(1)
    def rate(self, A, R, s):
        N = self.N
        P = np.array([np.sum(A*np.conj(np.roll(A, d))) for d in range(-(N//2), N - N//2)])
        return (A[self.l]*P[self.D + N//2]*(1 + s*self.W)*R[self.D + N//2]).sum(1)

def tabulated(L, gamma, wl, t):
    """A fibre with a propagation constant and a gain of its own in every bin."""
    from pynlo.media.fibers.fiber import FiberInstance
    class Tab(FiberInstance):
        def get_betas(self, pulse, z=0): return t['b'] + t['db']*z
        def get_gamma(self, z=0): return gamma*(1 + t['dg']*z)
        def get_gain(self, pulse, output_power=1): return t['g'].copy()
    f = Tab(); f.generate_fiber(L, wl, (0.0,), gamma, gain=1.0)
    return f

def replay(c, tr):
    from pynlo.interactions.FourWaveMixing import SSFM, global_variables as gv
    r = random.Random(tr['seed']); old = (SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN)
    kinds = ['none', 'frequency', 'simple', 'modern']
    pars = [dict(f_R=r.choice([.18, r.uniform(0, .5)]), f_R0=r.choice([.18, r.uniform(0, .5)]), tau_1=r.choice([.0122, r.uniform(.005, .03)]), tau_2=r.choice([.032, r.uniform(.02, .06)])) for _ in range(3)]
    shared = {}; stats = [0.0]
    try:
        for k, st in enumerate(tr['h']):
            o = st['opt']; q = Couple(st); N = q.N; kind = kinds[o['raman']]
            where = 'step %d (%s response, steepening %s, %d bins, solver %d, fast %s, shift %s)' % (k, kind, o['steep'], N, o['solver'], o['fast'], o['shift'])
            pr = pars[o['solver']]
            wl = r.choice([800.0, 1550.0, 1030.0]); win = 10**r.uniform(-1, .3)*N/8; w0 = 2*np.pi*299792.458/wl
            if r.random() < .4 and kind != 'none': win = N*r.uniform(.006, .02)          # resolves the response
            dw = 2*np.pi/win
            if N//2*dw > .8*w0: win *= N//2*dw/(.8*w0); dw = 2*np.pi/win
            R = response(kind, N, win, pr['f_R'], pr['f_R0'], pr['tau_1'], pr['tau_2']); s = dw/w0 if o['steep'] else 0.0
            if np.max(abs(q.f)) == 0: continue
            amp = 10**(r.uniform(-2, 3) if r.random() < .6 else r.uniform(-7, -2))*np.exp(1j*r.uniform(0, 6.28))
            A = amp*q.f
            At = np.exp(-2j*np.pi*np.outer(np.arange(N) - N//2, np.arange(N) - N//2)/N)@A
            if np.min(abs(At)) < 1e-4*np.max(abs(At)): continue
            p = F.pulse(N, win, wl, frep=r.choice([100., 1.])); p.set_AW(A)
            P = np.max(abs(At))**2; L = 10**r.uniform(-2, 2)
            def solver(fresh):
                key = (o['solver'], kind in ('none',), kind == 'simple', o['steep'])
                if fresh or key not in shared:
                    x = SSFM.SSFM(local_error=1e-9, dz=L*10**r.uniform(-2, .5), disable_Raman=kind == 'none', disable_self_steepening=not o['steep'], USE_SIMPLE_RAMAN=kind == 'simple', **pr)
                    if fresh: return x
                    shared[key] = x
                x = shared[key]; x.dz = L*10**r.uniform(-2, .5)
                return x
            def go(gamma, betas, gain, n, tab=None):
                f = F.fibre(L, betas, gamma, wl, gain) if tab is None else tabulated(L, gamma, wl, tab)
                SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN = o['fast'] and old[0], o['shift'], kind == 'frequency'
                try: z, AW, AT, out = solver(o['solver'] == 0).propagate(p, f, n, reload_fiber_each_step=tab is not None and tab['re'])
                finally: SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN = old
                return z, AW, np.array(out.AW), np.array(f.get_betas(p))
            # the rate, from the part odd in gamma of a weak propagation
            g = 1e-4/(P*L)
            a = go(g, (0.0,), 0.0, 1)[2]; b = go(-g, (0.0,), 0.0, 1)[2]
            got = (a - b)/(2*g*L)
            want = 1j*amp*abs(amp)**2*q.exact(R, s)
            sc = np.max(abs(want)) + 1e-9*P*np.max(abs(A)); e = np.max(abs(got - want))/sc; c.steps += 1
            stats.append(e)
            if not e < 1e-5:
                j = int(np.argmax(abs(got - want)))
                raise Mismatch('%s: bin %d changes at %r times gamma, the equation says %r; window %.4g ps at %g nm, %s' % (where, j - N//2, got[j], want[j], win, wl, pr))
            if not o['whole']: continue
            # a whole propagation against the equation
            g = r.choice([-1, 1, 1, 1])*10**r.uniform(-1, .7)/(P*L)
            T = win/N; b2 = r.uniform(-2, 2)/(dw**2*(N/4)**2*L); b3 = r.uniform(-2, 2)/(dw**3*(N/4)**3*L); gain = r.choice([0, 0, r.uniform(-2, 1)])/L
            n = r.choice([1, 2, 4]); tab = None
            if r.random() < .5:         # any propagation constant and gain in every bin, changing along the fibre
                rs = np.random.RandomState(r.randrange(2**31))
                tab = dict(b=rs.uniform(-2, 2, N)/L, db=rs.uniform(-2, 2, N)/L**2*r.choice([0, 1]), g=rs.uniform(-1.5, 1, N)/L*r.choice([0, 1, 1]), dg=r.choice([0, r.uniform(-.8, 2)])/L, re=r.random() < .6)
            z, AW, out, bet = go(g, (b2, b3), gain, n, tab)
            from scipy.integrate import solve_ivp
            y = A
            # the grid's own phase at odd places is the same for both, so bins compare directly
            for i in range(n):
                at = L*i/n if tab and tab['re'] else 0
                lin = 1j*bet + gain/2 if tab is None else 1j*(tab['b'] + tab['db']*at) + tab['g']/2
                gz = g if tab is None else g*(1 + tab['dg']*at)
                rhs = lambda x, y: lin*y + 1j*gz*q.rate(y, R, s)
                y = solve_ivp(rhs, (0, L/n), y, method='DOP853', rtol=1e-10, atol=1e-10*np.max(abs(A)), t_eval=[L/n]).y[:, 0]
                v = out if i == n - 1 else AW[:, i]
                e = np.max(abs(v - y))/np.max(abs(A)); tol = 2e-5
                if i == n - 1: stats.append(e)
                if not e < tol: raise Mismatch('%s: after %d of %d the field differs by %.1e from the solution of the equation (gamma P L %.2g, window %.4g ps at %g nm, betas %g %g, gain %g, %s)' % (where, i + 1, n, e, g*P*L, win, wl, b2*L, b3*L, gain*L, pr if tab is None else (pr, tab)))
                c.steps += 1
    finally:
        SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN = old
    return max(stats)
