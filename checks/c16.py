"""C16: phase-matching requests and poling."""
import json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X

C = X.C_NMPS
def run(c):
    r = random.Random(c.seed*161)
    q = c.scale(1, 10)
    jobs = [(('Poling', dict(DEPTH=4, SIM=False)), dict(invariants=['Balanced', 'BeginsPlus', 'Exact'], properties=['Fixed'], workers=4)),
            (('PhaseMatch', dict(DEPTH=3, SIM=False, NV=1, FMAX=5)), dict(invariants=['EnergyBalance', 'Positive', 'Indifferent'], workers=2))]
    for k in range(2):
        jobs.append((('Poling', dict(DEPTH=14 + 20*k, SIM=True)), dict(invariants=['Emit', 'BeginsPlus', 'Exact', 'Balanced'], properties=['Fixed'], simulate=60*q, depth=60, seed=c.seed*13 + k)))
        jobs.append((('PhaseMatch', dict(DEPTH=6 + 8*k, SIM=True, NV=4, FMAX=14)), dict(invariants=['Emit', 'EnergyBalance', 'Indifferent'], simulate=100*q, depth=30, seed=c.seed*13 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    def uniq(xs):
        d = {json.dumps(l): l for x in xs for l in x.lines}; ls = list(d.values()); r.shuffle(ls); return ls
    for t in uniq(rs[3::2])[:c.scale(200, 2000)]:
        c.replay(t, lambda t: match(c, t, r.random()), label='requests')
        if len(c.violations) >= 5: return
    for t in uniq(rs[2::2])[:c.scale(120, 1200)]:
        c.replay(t, lambda t: poling(c, t, r.random()), label='poling')
        if len(c.violations) >= 5: return

def match(c, tr, seed):
    r = random.Random(seed)
    par = {'T': X.close(r, 20, 200), 'theta': X.close(r, 0, math.pi/2)}
    lens = [None, 10**r.uniform(-3.5, -1), 10**r.uniform(-3.5, -1)]
    xs = []
    base = {'ppln': C/r.uniform(1200, 5000)/3*1.0, 'agse': C/r.uniform(5000, 14000)/3, 'ags': C/r.uniform(3000, 9000)/3}
    def idx(x, ax, wl):
        return X.index(x['kind'], x['sell'], par['T' if x['kind'] == 'ppln' else 'theta'][x['v'] - 1], ax, wl)
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s)' % (t + 1, op)
        if op == 'new':
            kw = {} if s['len'] == 0 and r.random() < .3 else dict(length=lens[s['len']])
            xs.append([X.make(s['kind'], par['T' if s['kind'] == 'ppln' else 'theta'][s['v'] - 1], **kw), s['kind'], kw.get('length', 1.0)])
        elif op == 'param':
            x = xs[s['n'] - 1]
            if x[1] == 'ppln': x[0].set_T(par['T'][s['v'] - 1])
            else: x[0].set_theta(par['theta'][s['v'] - 1])
        elif op == 'load': xs[s['n'] - 1][0].load(par['T'][s['v'] - 1], s['sell'])
        else:
            x, kind, length = xs[s['n'] - 1]
            # the frequency unit is such that the crystal is transparent for the whole request
            u = base[kind]*(6/max(6, s['f'][0]))**.5
            if kind == 'ppln':
                while C/(s['f'][0]*u) < 480: u *= .9
                while C/(min(s['f'])*u) > 5200 and C/(s['f'][0]*u) > 480: u *= 1.05
            wl = [C/(f*u) for f in s['f']]
            giv = [w if g else None for w, g in zip(wl, s.get('given', wl))]
            if op == 'match' and kind == 'ppln':
                dk = r.choice([3.2, 0.0, r.uniform(-6, 6)])
                kw = dict(silent=True) if r.random() < .7 else {}
                if dk != 3.2: kw['delta_k_L'] = dk
                got = x.calculate_poling_period(*giv, **kw)
                if s['new']:
                    if not (isinstance(got, tuple) and len(got) == 2): raise Mismatch('%s: %r returned where period and wavelength are due' % (what, got))
                    period, new = got
                    if not abs(new*s['new']*u/C - 1) < 1e-12: raise Mismatch('%s: reported wavelength %r, photon energies balance at %r' % (what, new, C/(s['new']*u)))
                else: period = got
                k = [2*np.pi*idx(s['x'], 'none', w)/(w*1e-9) for w in wl]
                set_pt = 0 if length is None else dk/length
                mis = k[0] - k[1] - k[2] - set_pt - 2*np.pi/period
                if np.isfinite(sum(k)) and not abs(mis) < 1e-9*k[0]: raise Mismatch('%s: the remaining mismatch is %g per metre (pump wavenumber %g) at %r, set-point %r' % (what, mis, k[0], giv, set_pt))
            elif op == 'match':
                k = [2*np.pi*idx(s['x'], 'o', w)/w for w in wl]
                n = (k[1] + k[2])/(2*np.pi/wl[0]); no, ne = idx(s['x'], 'o', wl[0]), idx(s['x'], 'e', wl[0])
                lo, hi = min(no, ne), max(no, ne)
                theta0 = x.theta
                ret = r.random() < .6
                try: got = x.phasematch(*giv, return_wavelength=True) if ret else x.phasematch(*giv)
                except AttributeError as e:
                    if 'phase matching' not in str(e).lower(): raise
                    if lo*(1 + 1e-9) < n < hi*(1 - 1e-9): raise Mismatch('%s: refused %r, although the index %r lies between %r and %r' % (what, giv, n, lo, hi))
                    got = None
                if x.theta != theta0: raise Mismatch('%s: the request changed the angle' % what)
                if got is None: c.notes['refused'] = c.notes.get('refused', 0) + 1; continue
                if not np.isfinite(n*no*ne) or n < lo*(1 - 1e-9) or n > hi*(1 + 1e-9): raise Mismatch('%s: %r returned for %r, which cannot be matched' % (what, got, giv))
                c.notes['angles'] = c.notes.get('angles', 0) + 1
                if ret and s['new']:
                    if not (isinstance(got, tuple) and len(got) == 2): raise Mismatch('%s: %r returned where angle and wavelength are due' % (what, got))
                    th, new = got
                    if not abs(new*s['new']*u/C - 1) < 1e-12: raise Mismatch('%s: reported wavelength %r, photon energies balance at %r' % (what, new, C/(s['new']*u)))
                else: th = got
                if not 0 <= th <= math.pi/2: raise Mismatch('%s: angle %r' % (what, th))
                x.set_theta(th); nm = x.n(wl[0]); x.set_theta(theta0)
                own = X.index(s['x']['kind'], '-', th, 'mix', wl[0])
                for v in (nm, own):
                    if not abs(v/n - 1) < 1e-9: raise Mismatch('%s: at the returned angle the pump index is %r, %r is needed' % (what, v, n))
            elif op == 'invert':
                if s['f'][0] > 4.6*s['f'][2]: continue
                u = C/r.uniform(1000, 1150)/s['f'][0]; wl = [C/(f*u) for f in s['f']]
                top = min(1.97*wl[0], r.choice([2000., 1900.]))
                if wl[1] > .99*top or wl[2] > 5000: continue
                P = lambda w: 2*np.pi/(1e9*sum(a*2*np.pi*idx(s['x'], 'none', v)/v for a, v in ((1, wl[0]), (-1, w), (-1, 1/(1/wl[0] - 1/w)))) - (0 if length is None else 3.2/length))
                ws = np.linspace(1/(1/wl[0] - 1/8000), top, 400)
                d = np.diff([P(w) for w in ws])
                if not (np.all(d > 0) or np.all(d < 0)): continue      # only where one signal has this period
                target = P(wl[1])
                got = x.invert_dfg_qpm_to_signal_wl(wl[0], target, top) if top != 2000. or r.random() < .5 else x.invert_dfg_qpm_to_signal_wl(wl[0], target)
                c.notes['inversions'] = c.notes.get('inversions', 0) + 1
                if not abs(P(got)/target - 1) < 1e-4: raise Mismatch('%s: signal %r has the period %r, not %r' % (what, got, P(got), target))

def poling(c, tr, seed):
    from pynlo.interactions.ThreeWaveMixing.DFG_integrand import dfg_problem
    import matplotlib.pyplot as plt
    r = random.Random(seed)
    u = 10**r.uniform(-6, -4)
    g = (8, 2.0, 1000.)
    pump, sgnl = X.pulse_on((8, 2.0, 1050.)), X.pulse_on((8, 2.0, 1550.))
    x = None; probs = []
    def pole(d, L):
        if d['t'] == 'tuple': x.set_pp((d['a']*u,))
        elif d['t'] == 'const': x.set_pp(lambda z: d['a']*u)
        elif d['t'] == 'table': x.set_pp(lambda z: d['tab'][min(int(z/u*(1 + 1e-9) + 1e-6)//d['w'], len(d['tab']) - 1)]*u)
        else:
            x.set_pp_chirp(d['a']*u, (d['a'] + d['s']*L/d['q'])*u)
        for f in (0, .25, .6, 1):        # the period function itself
            z = f*L*u
            want = d['a'] if d['t'] in ('tuple', 'const') else d['a'] + d['s']*f*L/d['q'] if d['t'] == 'chirp' else None
            if want is not None and not abs(x.pp(z)/(want*u) - 1) < 1e-9: raise Mismatch('the period at %r of the length is %r, not %r' % (f, x.pp(z), want*u))
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']
        if op == 'new':
            L = s['len']; x = X.make('ppln', 30., length=L*u); pole(s['d'], L)
        elif op == 'repole': pole(s['d'], L)
        elif op == 'problem':
            probs.append(dfg_problem(pump, sgnl, x, disable_SPM=True, pump_waist=1e-5)); plt.close('all')
        else:
            z = (s['z'] + .5 + r.uniform(-.4, .4))*u if op == 'sign' else s['z']*u
            got = probs[s['i'] - 1].poling(z)
            if got != s['s']: raise Mismatch('step %d: the sign at %r (unit %r, length %r) is %r, not %r; poling %r' % (t + 1, z, u, L*u, got, s['s'], [h.get('d') for h in tr['h']]))
