"""Replays sessions of FibreLattice on real pulses, fibres and solvers."""
import math, random
import numpy as np
from vlib.check import Mismatch
from vlib import fibres as F

M = 60
def snapshot(p):
    return dict(AT=np.array(p.AT), AW=np.array(p.AW), N=p.NPTS, win=p.time_window_ps, wl=p.center_wavelength_nm, frep=p.frep_MHz, T=np.array(p.T_ps), W=np.array(p.W_THz))
def same(a, b, what):
    for k in a:
        if not np.array_equal(a[k], b[k]): raise Mismatch('%s changed: %s' % (what, k))

def make_fibre(wld, f):
    """A fibre whose dispersion and gain on any of the session's grids is the specification's."""
    from pynlo.media.fibers.fiber import FiberInstance
    u, ph = wld.u, 2*np.pi/M
    k = np.array(f['k'])*math.log(2)/4/u
    if f['kind'] == 'N':
        g = abs(k[0]) if k[0] else 1/u
        gam = lambda z: (f['gam'] + f['dgam']*round(z/u, 6))*ph*g/wld.pu
    else: gam = lambda z: 0.0
    L = f['len']*u
    if wld.taylor and (f['kind'] == 'N' or len(set(f['k'])) == 1):
        x = FiberInstance()
        # beta_j = b1 j^2 (phase units per length unit), j the bin number from the centre
        bs = lambda z: ((f['b'][0] + f['db'][0]*round(z/u, 6))*ph/u*2/wld.dw**2, 0.0)
        x.generate_fiber(L, wld.wl, bs(0) if wld.r.random() < .5 else [b*1e3 for b in bs(0)], gam(0), gain=float(k[0]) if k[0] else 0,
                         gvd_units='ps^n/m') if False else x.generate_fiber(L, wld.wl, bs(0), gam(0), gain=float(k[0]) if k[0] else 0)
        if f['vary']:
            if f['kind'] == 'L': x.set_dispersion_function(lambda z: bs(z), 'GVD')
            else: x.set_gamma_function(lambda z: gam(z))
        return x, None
    if wld.taylor: return None, None
    tabs = {}
    class Tab(FiberInstance):
        asked = []
        def get_betas(self, pulse, z=0):
            self.asked.append(z/u)
            key = (pulse.NPTS, round(z/u, 6))
            if key not in tabs:
                ch = wld.chan(pulse.NPTS)
                b = np.array([(f['b'][c] + f['db'][c]*round(z/u, 6))*ph/u for c in ch])
                tabs[key] = (b, b.copy())
            return tabs[key][0]
        def get_gamma(self, z=0): return gam(z)
        def get_gain(self, pulse, output_power=1):
            self.power = output_power
            return np.array([k[c] for c in wld.chan(pulse.NPTS)])
    x = Tab()
    x.generate_fiber(L, wld.wl, (0.0,), gam(0), gain=1.0)
    return x, tabs

class World: pass

def replay(c, tr, seed, config=False, columns=True):
    """config: also vary transform library and layout from run to run."""
    from pynlo.interactions.FourWaveMixing import SSFM, global_variables as gv
    r = random.Random(seed); rs = np.random.RandomState(r.randrange(2**31))
    w = World(); w.r = r
    w.u = 10**r.uniform(-3, 1); w.wl = r.choice([800.0, 1550.0, 1064.0]); w.pu = 10**r.uniform(-2, 3)
    w.taylor = r.random() < .35
    sizes = dict(a=r.choice([4, 8, 16, 32]), b=r.choice([8, 64, 10, 128]))
    if not w.taylor and r.random() < .25: sizes['a'] = r.choice([3, 5, 9, 15])
    if w.taylor: sizes = {k: min(v, 32) for k, v in sizes.items()}
    win = r.uniform(1, 20); wins = dict(a=win, b=win if w.taylor else r.uniform(1, 20))
    if r.random() < .5: sizes['b'] = 128; wins['b'] = 3.2      # a grid that resolves the Raman response
    if w.taylor: wins['a'] = wins['b']; sizes['b'] = min(sizes['b'], 32) if wins['b'] != 3.2 else 128
    w.dw = 2*np.pi/wins['b']
    chans = {}
    def chan(N):
        if N not in chans: chans[N] = [r.randrange(3) for _ in range(N)]
        return chans[N]
    w.chan = chan
    pulses, fibs, solvers, keep = [], [], {}, []
    old = (SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT)
    try:
        for step, h in enumerate(tr['h']):
            where = 'step %d (%s)' % (step, h['op'])
            if h['op'] == 'fibre':
                x, tabs = make_fibre(w, h['f'])
                fibs.append((x, tabs, h['f']))
            elif h['op'] == 'pulse':
                q = h['p']; N = sizes[q['size']]; ch = chan(N)
                p = F.pulse(N, wins[q['size']], w.wl, frep=r.choice([80.0, 100.0, 0.001, 1e3]))
                if q['kind'] == 'F': p.set_AW(rs.randn(N) + 1j*rs.randn(N))
                else:
                    cw = len(set(q['P'])) == 1 and r.random() < .6; phi = r.uniform(0, 6.28)      # a continuous wave: Raman and self-steepening have nothing to act on
                    p.set_AT(np.array([math.sqrt(q['P'][c_]*w.pu)*np.exp(1j*(phi if cw else r.uniform(0, 6.28))) for c_ in ch]))
                base = np.array(p.AW if q['kind'] == 'F' else p.AT)
                pulses.append(dict(p=p, kind=q['kind'], base=base, N=N, snap=snapshot(p), cw=q['kind'] == 'T' and cw))
            else:
                src = pulses[h['i']-1]; x, tabs, f = fibs[h['j']-1]
                if src is None or x is None: pulses.append(None); continue
                h = dict(h, raman=h['raman'] and (f['kind'] == 'L' or (src['N'] == 128 and src['snap']['win'] < 3.3)))
                key = (h['s'], h['raman'])
                if key not in solvers:
                    steep = (f['kind'] == 'L' or (h['raman'] and src['cw'])) and r.random() < .5
                    solvers[key] = (SSFM.SSFM(local_error=1e-8, dz=w.u*10**r.uniform(-3, 1), disable_Raman=not h['raman'], disable_self_steepening=not steep,
                                              USE_SIMPLE_RAMAN=r.random() < .5), steep)
                s, steep = solvers[key]
                if steep and f['kind'] == 'N' and not (h['raman'] and src['cw']):      # made for another kind of input: not covered here
                    s = SSFM.SSFM(local_error=1e-8, dz=w.u*.1, disable_Raman=not h['raman'], disable_self_steepening=True)
                if config: SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT = r.choice([True, False]) and old[0], r.choice([True, False])
                n = h['n']; L = f['len']*w.u; N = src['N']
                if r.random() < .6:        # steps that just fit, fit twice, leave a remainder of about one step, ...
                    s.dz = L/n*r.choice([10**r.uniform(-3, 1), 1, 1, 2, .5, 1/3, (1 + 1e-4)/3, (1 - 1e-4)/3, (1 - 1e-3)/3, .25, 1e3])
                before = dict(len=x.length, gam0=x.get_gamma(0), betas=np.array(x.get_betas(src['p'], 0))) 
                if tabs is not None: x.asked.clear()
                pw = r.choice([None, 1.5])
                z, AW, AT, out = s.propagate(src['p'], x, r.choice([n, float(n), np.int64(n)]), output_power=pw, reload_fiber_each_step=h['re'])
                if config: SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT = old
                if tabs is not None:
                    if x.power != pw: raise Mismatch('%s: gain asked for with output power %r, requested %r' % (where, x.power, pw))
                    for k_, (b, b0) in tabs.items():
                        if not np.array_equal(b, b0): raise Mismatch('%s: array returned by the fibre was modified' % where)
                    want_z = set(i*f['len']/n for i in range(n)) if h['re'] else {0}
                    bad = [q for q in x.asked if min(abs(q - v) for v in want_z) > 1e-9*f['len']]
                    if bad: raise Mismatch('%s: dispersion taken at %s of %s (reload %s)' % (where, bad, f['len'], h['re']))
                after = dict(len=x.length, gam0=x.get_gamma(0), betas=np.array(x.get_betas(src['p'], 0)))
                same(before, after, where + ': the fibre')
                same(src['snap'], snapshot(src['p']), where + ': the input pulse')
                judge(c, where, src, f, h, z, AW, AT, out, L, w, columns)
                pulses.append(dict(p=out, kind=src['kind'], base=src['base'], N=N, snap=snapshot(out), cw=src['cw']))
                keep.append((z, AW, AT, z.copy(), AW.copy(), AT.copy(), where))
                c.steps += 1
        for i, p in enumerate(pulses):
            if p: same(p['snap'], snapshot(p['p']), 'by the end of the session, pulse %d' % i)
        for z, AW, AT, a, b, d, where in keep:
            if not (np.array_equal(z, a) and np.array_equal(AW, b) and np.array_equal(AT, d)): raise Mismatch('%s: returned arrays changed later' % where)
    finally:
        SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT = old

def expected(src, w, col):
    N = src['N']
    if w.taylor:
        j = np.arange(N) - N//2
        e = col['e'][0]*j**2 if src['kind'] == 'F' else np.array([col['e'][c_] for c_ in w.chan(N)])
        g = np.full(N, col['g'][0])
    else:
        e = np.array([col['e'][c_] for c_ in w.chan(N)]); g = np.array([col['g'][c_] for c_ in w.chan(N)])
    return src['base']*np.exp(2j*np.pi*np.mod(e, M)/M)*2.0**(g/8.0)

def judge(c, where, src, f, h, z, AW, AT, out, L, w, columns):
    n, N = h['n'], src['N']
    z = np.asarray(z)
    if z.shape != (n + 1,) or np.max(np.abs(z - np.arange(n + 1)*L/n)) > 1e-12*L: raise Mismatch('%s: positions %s for length %r in %d' % (where, z, L, n))
    if AW.shape != (N, n) or AT.shape != (N, n): raise Mismatch('%s: shapes %s %s' % (where, AW.shape, AT.shape))
    for k in ('N', 'win', 'wl', 'frep', 'T', 'W'):
        if not np.allclose(src['snap'][k], snapshot(out)[k], rtol=1e-12, atol=0): raise Mismatch('%s: the returned pulse has another %s' % (where, k))
    want = expected(src, w, h['cols'][-1])
    sc = max(np.max(np.abs(want)), 1e-300)
    tol = 2e-6 if src['kind'] == 'T' else 1e-9*(1 + n)
    got = out.AW if src['kind'] == 'F' else out.AT
    if np.max(np.abs(want)) == 0:
        if np.max(np.abs(got)) != 0: raise Mismatch('%s: nothing in, %r out' % (where, np.max(np.abs(got))))
        return
    err = np.max(np.abs(got - want))/sc
    if not err <= tol: raise Mismatch('%s: returned pulse differs from the specification by %.2e (kind %s, %d outputs, reload %s)' % (where, err, src['kind'], n, h['re']))
    for i in range(n):
        want = expected(src, w, h['cols'][i])
        a = AW[:, i] if src['kind'] == 'F' else AT[:, i]
        sc = np.max(np.abs(want)); err = np.max(np.abs(a - want))/sc
        if not err <= tol + 5e-6: raise Mismatch('%s: output %d of %d differs from the specification by %.2e' % (where, i + 1, n, err))
        # both domains show the same field (the pulse class defines their relation, C02)
        from pynlo.light.PulseBase import Pulse
        p = src['p'].create_cloned_pulse()
        p.set_AT(np.array(AT[:, i], complex))
        if not np.max(np.abs(p.AW - AW[:, i])) <= 2e-5*np.max(np.abs(p.AW)): raise Mismatch('%s: the two domains of output %d disagree' % (where, i + 1))
    if not (np.max(np.abs(AW[:, -1] - out.AW)) <= 2e-6*np.max(np.abs(out.AW)) and np.max(np.abs(AT[:, -1] - out.AT)) <= 2e-6*np.max(np.abs(out.AT))):
        raise Mismatch('%s: last output is not the returned pulse' % where)

INV = dict(invariants=['Emit', 'OutputsDoNotMatter', 'Halves', 'Energy', 'NoPowerNoPhase'], properties=['Immutable'])
def jobs(c, num, depth, seed):
    return [(('FibreLattice', dict(DEPTH=depth, SIM=True, NPULSE=3, SMALL=False)), dict(INV, simulate=num, depth=depth + 2, seed=seed))]
def design(): return (('FibreLattice', dict(DEPTH=3, SIM=False, NPULSE=1, SMALL=True)), dict(INV, workers=4))
