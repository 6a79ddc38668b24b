"""C22: noise on pulses and coherence of noisy ensembles."""
import json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X
from scipy.constants import h as H
NB = 8
def run(c):
    r = random.Random(c.seed*223)
    q = c.scale(1, 10)
    jobs = [(('Noise', dict(DEPTH=c.scale(4, 5), SIM=False, NB=4, TMAX=c.scale(5, 6))), dict(invariants=['NoRepeat', 'Ensembles'], view='View', workers=4))]
    for k in range(3):
        jobs.append((('Noise', dict(DEPTH=6 + 8*k, SIM=True, NB=NB, TMAX=4)), dict(invariants=['Emit', 'NoRepeat'], simulate=60*q, depth=40, seed=c.seed*41 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    st = {}
    for kind in ('sqrt_N_freq', 'one_photon_freq'):
        c.replay(dict(kind=kind, draws=c.scale(4000, 40000), seed=r.randrange(10**6)), lambda t: statistics(c, t), label='statistics', sample=False, seconds=300)
    c.replay(dict(kind='vacuum', draws=c.scale(3000, 30000), seed=r.randrange(10**6)), lambda t: vacuum(c, t), label='statistics', sample=False, seconds=300)
    ls = list({json.dumps(l): l for x in rs[1:] for l in x.lines}.values()); r.shuffle(ls)
    for t in ls[:c.scale(110, 1500)]:
        c.replay(t, lambda t: replay(c, t, r.random()), label='history', seconds=120)
        if len(c.violations) >= 5: return

def mags(k, n=NB): return np.array([1 + b % 3 if k == 1 else b % 2 if k == 2 else (b*b) % 5 for b in range(1, n + 1)], float)

def statistics(c, t):
    """The law of the noise, bin by bin and between bins."""
    r = random.Random(t['seed']); n = t['draws']; np.random.seed(r.randrange(2**31))
    N = r.choice([6, 8]); f0 = r.uniform(100, 400); w = N/(f0*.8)*r.choice([1, 1, 1.3])
    amp = 10**r.uniform(-2, 1)
    A = amp*np.array([r.uniform(.3, 2)*np.exp(2j*math.pi*r.random()) for _ in range(N)])
    if t['kind'] == 'sqrt_N_freq': A[r.randrange(N)] = 0
    base = X.pulse_on((N, w, X.C_NMPS/f0), r); base.set_AW(A); A = np.array(base.AW)
    E = H*np.array(base.F_mks)*base.dF_mks
    sig = np.sqrt(np.abs(A)**2/E)*E if t['kind'] == 'sqrt_N_freq' else E
    out = np.empty((n, N), complex)
    for k in range(n):
        base.set_AW(A); base.add_noise(noise_type=t['kind']); out[k] = np.array(base.AW) - A
        c.steps += 1
    zero = sig < 1e-3*sig.max()
    if np.any(np.abs(out[:, zero]) > 1e-14*np.abs(A).max()): raise Mismatch('noise in a bin without photons')
    x = out[:, ~zero]/sig[~zero]; tol = 6/math.sqrt(n)
    def near(got, want, tol, what):
        if not np.all(np.abs(got - want) <= tol): raise Mismatch('%s of %s noise over %d draws is %r, not %r' % (what, t['kind'], n, np.round(got, 3).tolist(), want))
    near(np.mean(x, 0), 0, tol, 'mean'); near(np.mean(np.abs(x)**2, 0), 1, 1.5*tol, 'variance (in units of the stated one)')
    near(np.mean(x**2, 0), 0, 2*tol, 'preferred phase'); near(np.mean(x**2/np.abs(x)**2, 0), 0, tol, 'preferred phase')
    near(np.mean(x/np.abs(x), 0), 0, tol, 'preferred direction')
    near(np.mean(np.abs(x)**4, 0), 3, 10*tol, 'fourth moment')
    m = x.shape[1]
    for i in range(m):
        for j in range(i):
            near(np.mean(x[:, i]*np.conj(x[:, j])), 0, tol, 'correlation of bins %d and %d' % (i, j)); near(np.mean(x[:, i]*x[:, j]), 0, tol, 'correlation of bins %d and %d' % (i, j))
            near(np.mean((np.abs(x[:, i])**2 - 1)*(np.abs(x[:, j])**2 - 1))/2, 0, 2*tol, 'correlation of the sizes in bins %d and %d' % (i, j))
    near(np.mean(x[1:]*np.conj(x[:-1]), 0), 0, tol, 'correlation of consecutive draws')

def vacuum(c, t):
    """The phases of the vacuum pulse: uniform over the circle, independent from bin to bin and from pulse to pulse."""
    from pynlo.light.DerivedPulses import NoisePulse
    r = random.Random(t['seed']); n = t['draws']; np.random.seed(r.randrange(2**31)); N = 6
    u = np.empty((n, N), complex)
    for k in range(n):
        A = np.array(NoisePulse(1000.*r.uniform(.5, 2), time_window_ps=r.uniform(.1, 10), NPTS=N).AW); u[k] = A/np.abs(A); c.steps += 1
    tol = 6/math.sqrt(n)
    for q in (1, 2, 3, 4):
        if np.any(np.abs(np.mean(u**q, 0)) > tol): raise Mismatch('the phases of vacuum noise are not uniform: mean of exp(%d i phase) is %r' % (q, np.round(np.mean(u**q, 0), 3).tolist()))
    for i in range(N):
        for j in range(i):
            if abs(np.mean(u[:, i]*np.conj(u[:, j]))) > tol or abs(np.mean(u[:, i]*u[:, j])) > tol: raise Mismatch('vacuum noise of bins %d and %d is correlated' % (i, j))
    if np.any(np.abs(np.mean(u[1:]*np.conj(u[:-1]), 0)) > tol): raise Mismatch('vacuum noise of consecutive pulses is correlated')

def replay(c, tr, seed):
    from pynlo.light.DerivedPulses import NoisePulse
    from pynlo.media.fibers.fiber import FiberInstance
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    r = random.Random(seed)
    f0 = r.uniform(100, 400); grid = (NB, NB/(f0*r.uniform(.2, .8)), X.C_NMPS/f0); amp = 10**r.uniform(-2, 1)
    ph = {k: np.exp(2j*math.pi*np.array([r.random() for _ in range(NB)])) for k in (1, 2, 3)}
    seeds = [r.randrange(2**31) for _ in range(3)]; seeds[2] = 0                       # zero is a seed like any other
    np.random.seed(seeds[1])
    ps, calls = [], []
    L = 10**r.uniform(-3, 0)
    def state(p): return (p.NPTS, p.time_window_ps, p.center_wavelength_nm, p.frep_mks, np.array(p.AW).tobytes(), np.array(p.AT).tobytes(), np.array(p.W_mks).tobytes())
    def fibre(kind):
        f = FiberInstance(); b = [r.uniform(-.05, .05)*grid[1]**2/L, 0.]
        f.generate_fiber(L, grid[2], b, .1/L/amp**2/NB**2 if kind == 'zdep' else 0.0, gain=1/L if kind == 'gain' else 0)
        if kind == 'spectrum':
            f.fiberspecs = dict(f.fiberspecs, is_gain=True, gain_x_units='m', gain_x_data=np.linspace(.2, 5, 40)*grid[2]*1e-9, gain_y_data=[1 + .5*math.sin(k) for k in range(40)])
        if kind == 'zdep': f.set_gamma_function(lambda z: .2/L/amp**2/NB**2*(1 + z/L))
        if kind in ('zdep', 'zlin'): f.set_dispersion_function(lambda z: [b[0]*(1 + 2*z/L)], 'GVD')
        return f
    fibres = {k: fibre(k) for k in ('plain', 'gain', 'zlin', 'zdep', 'spectrum')}
    solver = lambda: SSFM(local_error=1e-6, USE_SIMPLE_RAMAN=True, disable_Raman=True, suppress_iteration=True)
    z = X.pulse_on(grid, None); z.set_AW(H*np.array(z.F_mks)*z.dF_mks); floor = z.calc_epp()
    shared = solver()
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s): ' % (t + 1, op)
        before = [state(p) for p in ps]; touched = None
        if op == 'new':
            p = X.pulse_on(grid, None); p.set_AW(amp*mags(s['k'])*ph[s['k']]); ps.append(p)
        elif op == 'vacuum':
            fr = random.Random('%d/%d' % (seeds[0], t)).choice([100., 80., 250., None])
            p = NoisePulse(grid[2], time_window_ps=grid[1], NPTS=NB, **({'frep_MHz': fr} if fr or seeds[1]%2 else {})); ps.append(p)
            if p.NPTS != NB or p.time_window_ps != grid[1] or abs(p.center_wavelength_nm/grid[2] - 1) > 1e-12 or (fr and p.frep_MHz != fr): raise Mismatch(what + 'not the grid or repetition rate asked for')
            if not np.allclose(np.abs(p.AW), 1e-30, rtol=1e-9): raise Mismatch(what + 'magnitudes are %r' % np.abs(p.AW).tolist())
        elif op == 'clone': ps.append(ps[s['i'] - 1].create_cloned_pulse())
        elif op == 'seed': np.random.seed(seeds[s['s']])
        elif op == 'user': np.random.random(3)
        elif op == 'bad':
            try: ps[s['i'] - 1].add_noise(noise_type=r.choice(['', 'sqrt_n_freq', 'one_photon', 'none']))
            except ValueError: pass
            else: raise Mismatch(what + 'an unknown kind of noise was accepted')
        elif op == 'noise':
            touched = s['i'] - 1; p = ps[touched]; A = np.array(p.AW)
            if s['kind'] == 'sqrt_N_freq' and r.random() < .5: p.add_noise()
            else: p.add_noise(noise_type=s['kind'])
            n = np.array(p.AW) - A; E = H*np.array(p.F_mks)*p.dF_mks
            sig = E*(np.sqrt(np.abs(A)**2/E) if s['kind'] == 'sqrt_N_freq' else 1)
            if s['var']:
                v = np.sqrt(np.array(s['var'], float))*(amp*np.sqrt(E) if s['power'] == 1 else E)
                if not np.allclose(v, sig, rtol=1e-6, atol=1e-12*v.max()): raise Mismatch(what + 'machinery')
                sig = v
            eps = 1e-14*np.abs(A).max()
            if np.any(np.abs(n) > 8*sig + eps): raise Mismatch(what + 'noise %r is far above its standard deviation %r' % (np.abs(n).tolist(), sig.tolist()))
            if np.any((sig > 1e5*eps) & (np.abs(n) < 1e-4*eps)): raise Mismatch(what + 'a bin got no noise')
            a, b = before[touched], state(p)
            if a[:4] + a[6:] != b[:4] + b[6:]: raise Mismatch(what + 'more than the field of the pulse changed')
        elif op == 'look':
            cl = s['cls']; st = [state(p) for p in ps]
            for i in range(len(ps)):
                for j in range(i):
                    if cl[i] == cl[j] and st[i] != st[j]:
                        if np.allclose(ps[i].AW, ps[j].AW, rtol=1e-10, atol=1e-13*np.abs(ps[i].AW).max()): continue    # a copy goes through the time domain
                        raise Mismatch(what + 'pulses %d and %d had the same noise from the same generator states but differ' % (j + 1, i + 1))
                    if cl[i] != cl[j] and st[i] == st[j]: raise Mismatch(what + 'pulses %d and %d had different noise but are equal' % (j + 1, i + 1))
        elif op == 'coherence':
            p = ps[s['i'] - 1]; o = s['o']; f = fibres[o['f']]; T = s['trials']
            if s['seed']: np.random.seed(seeds[s['seed']])
            g0 = np.random.get_state()
            seed = seeds[s['seed']] if s['seed'] else None
            if seed is not None: np.random.seed(1)            # must not matter
            # noise in proportion to nothing: an empty vacuum, which cannot be amplified to a power in single precision
            dark = s['kind'] == 'sqrt_N_freq' and p.calc_epp() < 1e-6*floor
            if dark: f = fibres['plain']
            power = None if o['p'] == 'none' or dark else (2. if o['p'] == 'low' else 6.)*(p.calc_epp() + floor)*p.frep_mks; lin = dark or o['f'] != 'zdep'; tol = 2e-6 if lin else 2e-3
            opts = dict(n_steps=o['n'], output_power=power, reload_fiber_each_step=o['rel'])
            # the ensemble by hand, with solvers of its own
            np.random.set_state(g0); want = []
            for _ in range(T):
                z = p.create_cloned_pulse(); z.add_noise(noise_type=s['kind'])
                want.append((z, solver().propagate(z, f, **opts)))
            g1 = np.random.get_state()
            np.random.set_state(g0) if seed is None else np.random.seed(1)
            g12, res = (shared if r.random() < .5 else solver()).calculate_coherence(
                p, f, num_trials=T, random_seed=seed, noise_type=s['kind'], **opts)
            if len(res) != T: raise Mismatch(what + '%d results for %d trials' % (len(res), T))
            E = []
            for k, x in enumerate(res):
                y, AW, AT, out = x[0], x[1], x[2], x[-1]; zy, zAW, zAT, zout = want[k][1]
                E.append(np.array(AW, complex))
                sc = np.abs(zAW).max(); st = np.abs(zAT).max()
                if y.shape != zy.shape or not np.allclose(y, zy): raise Mismatch(what + 'positions of trial %d are %r, not %r' % (k + 1, y.tolist(), zy.tolist()))
                if AW.shape != zAW.shape or not np.allclose(AW, zAW, atol=tol*sc, rtol=0) or not np.allclose(AT, zAT, atol=tol*st, rtol=0):
                    raise Mismatch(what + 'trial %d of %r is not the propagation of an independently noisy copy of the input under the options %r: off by %g of the peak' % (k + 1, s['kind'], opts, np.abs(AW - zAW).max()/sc if AW.shape == zAW.shape else -1))
                if not np.allclose(out.AW, zout.AW, atol=(1e-10 if lin else 2e-3)*np.abs(zout.AW).max(), rtol=0): raise Mismatch(what + 'output pulse of trial %d differs' % (k + 1))
                # what noise alone did: differences between trials survive in the double precision pulses
                for m in range(k):
                    if np.array_equal(out.AW, res[m][-1].AW): raise Mismatch(what + 'trials %d and %d have the same noise' % (m + 1, k + 1))
            E = np.array(E); ok = np.all(np.abs(E) > 1e-35, axis=0)
            u = np.where(ok, E/np.where(ok, np.abs(E), 1), 1)
            wantg = np.abs(np.abs(u.sum(0))**2 - T)/float(s['pairs'])
            if g12.shape != wantg.shape: raise Mismatch(what + 'shape %r, not %r' % (g12.shape, wantg.shape))
            if np.any(~np.isfinite(g12[ok])) or np.any(g12[ok] < 0) or np.any(g12[ok] > 1 + 1e-5): raise Mismatch(what + 'value outside [0, 1]: %r' % g12.tolist())
            if not np.allclose(g12[ok], wantg[ok], atol=5e-6): raise Mismatch(what + 'value is %r, not %r over the %d ordered pairs of distinct trials' % (g12.tolist(), wantg.tolist(), s['pairs']))
            for j in s['same']:
                if not np.array_equal(g12, calls[j - 1], equal_nan=True): raise Mismatch(what + 'the same calculation from the same generator state gave another result')
            calls.append(g12)
            a, b = np.random.random(), None
            np.random.set_state(g1); b = np.random.random()
            if a != b: raise Mismatch(what + 'the random generator did not advance by the noise of %d trials' % T)
            np.random.set_state(g1)
        for i, z in enumerate(before):
            if i != touched and state(ps[i]) != z: raise Mismatch(what + 'pulse %d changed' % (i + 1))
