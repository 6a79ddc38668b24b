"""C25: group velocity, delay, dispersion parameter, mixing bandwidth and inverted poling of a crystal."""
import math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X

LAMS = set(range(6, 25)); C = X.C_NMPS
BANDS = [dict(p=p, s=s, i=i) for p in range(4, 13) for s in range(5, 37) for i in range(5, 37) if p*(s + i) == s*i and s <= 30 and i <= 36]
BANDS += [dict(p=b['p'], s=b['i'], i=b['s']) for b in BANDS if dict(p=b['p'], s=b['i'], i=b['s']) not in BANDS]
class Recs(frozenset): pass

def run(c):
    r = random.Random(c.seed*193)
    q = c.scale(1, 12)
    base = dict(NX=2, NV=2, KINDS={'flat', 'two'}, COEF={-1, 2}, LAMS={2, 3, 5}, BANDS=[dict(p=2, s=3, i=6), dict(p=2, s=4, i=4)])
    base['BANDS'] = Set(base['BANDS'])
    inv = ['Derivative', 'NoDelay', 'Photons', 'Swapped']
    jobs = [(('Dispersion', dict(base, NX=1, DEPTH=2, SIM=False, COEF={-1, 2} if not c.thorough else {-1, 1, 2})), dict(invariants=inv, view='View', workers=4))]
    for k in range(3):
        a = dict(NX=3, NV=4, KINDS={'flat', 'two'}, COEF=set(range(-9, 10)), LAMS=LAMS, BANDS=Set(BANDS), DEPTH=12 + 8*k, SIM=True)
        jobs.append((('Dispersion', a), dict(invariants=['Derivative', 'Emit'], simulate=60*q, depth=60, seed=c.seed*23 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = [l for x in rs[1:] for l in x.lines]; r.shuffle(ls)
    for t in ls[:c.scale(180, 2000)]:
        c.replay(t, lambda t: replay(c, t, r.random(), 'poly'), label='polynomial crystals')
        c.replay(t, lambda t: replay(c, t, r.random(), 'real'), label='library crystals', sample=False)
        if len(c.violations) >= 5: return

def Set(l): return {tuple_rec(x) for x in l}
class tuple_rec(dict):
    def __hash__(self): return hash(tuple(sorted(self.items())))

def polycrystal(x, unit, scale):
    """A user's own crystal: indices 2 + scale*polynomial(wavelength/unit), parameter T (one axis) or theta (two)."""
    from pynlo.media.crystals.CrystalContainer import Crystal
    pol = lambda cs, l: 2 + scale*sum(k*(l/unit)**i for i, k in enumerate(cs))
    class One(Crystal):
        def __init__(s, T, **k): Crystal.__init__(s, k); s.mode = 'PP'; s.T = T; s.deff = 1e-12
        def n(s, wl_nm, axis=None): return pol([a + s.T*b for a, b in zip(x['o'], x['d'])], wl_nm)
        def set_T(s, T): s.T = T
    class Two(Crystal):
        def __init__(s, theta, **k): Crystal.__init__(s, k); s.mode = 'BPM'; s.theta = theta; s.deff = 1e-12
        def n(s, wl_nm, axis='mix'):
            if axis == 'o': return pol(x['o'], wl_nm)
            if axis == 'e': return pol(x['e'], wl_nm)
            if axis == 'mix': return pol([a + s.theta*(b - a) for a, b in zip(x['o'], x['e'])], wl_nm)
            raise ValueError('no such axis')
        def set_theta(s, a): s.theta = a
    return One if x['kind'] == 'flat' else Two

def slopes(f, l):
    """n, n', n'' of a smooth function of the wavelength, in units of 1, 1/nm, 1/nm^2 (central differences of order ten at two steps)."""
    out = []
    w1 = {1: 5/6, 2: -5/21, 3: 5/84, 4: -5/504, 5: 1/1260}
    w2 = {0: -5269/1800, 1: 5/3, 2: -5/21, 3: 5/126, 4: -5/1008, 5: 1/3150}
    h = 4e-3*l
    d1 = sum(w*(f(l + k*h) - f(l - k*h)) for k, w in w1.items())/h
    d2 = (w2[0]*f(l) + sum(w*(f(l + k*h) + f(l - k*h)) for k, w in w2.items() if k))/h**2
    return f(l), d1, d2

def replay(c, tr, seed, how):
    r = random.Random(seed)
    unit = r.choice([100., 50., 127.5]) if how == 'poly' else 100.
    scale = 10**r.uniform(-7, -5.2)
    L0 = 10**r.uniform(-4, -1)
    par = {'T': X.close(r, 20, 200), 'theta': X.close(r, 0.05, 1.5)}
    cs, spec = [], []
    def lam(l):
        """wavelength in nm; the library's crystals are transparent in a narrower range"""
        if how == 'poly': return l*unit
        return {'flat': 700 + 110.*l, 'two': 1200 + 140.*l}[cur['kind']]
    def axis(a): return None if a == 'none' else a
    def n_of(i, a, p):
        s = spec[i]
        return lambda l: X.index(s['lib'][0], s['lib'][1], par[s['par']][p - 1], 'mix' if a == 'none' else a, l)
    def ng(i, a, p, l):
        n0, n1, _ = slopes(n_of(i, a, p), l); return n0 - l*n1
    def close(got, want, rel, ab, what):
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape: raise Mismatch('%s: shape %s, specification %s' % (what, got.shape, want.shape))
        if not np.all(np.abs(got - want) <= rel*np.abs(want) + ab): raise Mismatch('%s: %r, specification %r' % (what, got.tolist(), want.tolist()))
    for st in tr['h']:
        op = st['op']; c.steps += 1
        if op == 'new':
            x = st['x']; two = x['kind'] == 'two'
            s = dict(x=x, par='theta' if two else 'T', kind=x['kind'])
            if how == 'poly':
                k = polycrystal(x, unit, scale); cr = k(x['v'], length=x['len']*L0)
            else:
                s['lib'] = (r.choice(['agse', 'ags']), '-') if two else ('ppln', r.choice(['Gayer_5pctMg', 'Gayer_5pctMg', 'Deng']))
                p0 = par[s['par']][x['v'] - 1]
                cr = X.make(s['lib'][0], p0, length=x['len']*L0)
                if s['lib'][1] == 'Deng': cr.load(p0, data_source='Deng')
            cs.append(cr); spec.append(s); continue
        i = st['i'] - 1; s = spec[i]; cr = cs[i]; cur = s; x = s['x']
        what = '%s on a %s crystal, %r' % (op, x['kind'], {k: v for k, v in st.items() if k not in ('op', 'v')})
        if op == 'param':
            v = st['v'] if how == 'poly' else par[s['par']][st['v'] - 1]
            (cr.set_theta if s['par'] == 'theta' else cr.set_T)(v); continue
        if op == 'caching': cr.set_caching(st['on']); continue
        if op in ('vg', 'D'):
            a = axis(st['a']); ls = [lam(l) for l in st['l']]
            many = len(ls) > 1 or r.random() < .3
            arg = np.array(ls) if many else ls[0]
            if many and r.random() < .2 and all(v == int(v) for v in ls): arg = arg.astype(int)
            keep = np.array(arg)
            f = cr.calculate_group_velocity_nm_ps if op == 'vg' else r.choice([cr.calculate_D_ps_nm_km, cr.calculate_D_fs_um_mm])
            got = f(arg, a) if a is not None or r.random() < .5 else f(arg)
            if how == 'poly':
                G = 2 + scale*np.array(st['v']) if op == 'vg' else None
                want = C/G if op == 'vg' else scale*np.array(st['v'])/unit/C*1e12
            else:
                y = [slopes(n_of(i, st['a'], st['p']), l) for l in ls]
                want = np.array([C/(n0 - l*n1) if op == 'vg' else -l/C*n2*1e12 for l, (n0, n1, n2) in zip(ls, y)])
            if not many: want = want[0]
            # the library differentiates with a tenth of a nanometre: that and the independent differences set the accuracy
            if op == 'vg': close(got, want, 1e-8, 0, what)
            else:
                noise = max(ls)*(2e-6 + 2e-5)
                if how == 'poly': noise = max(ls)*2e-5
                close(got, want, 3e-4, noise, what)
            if not np.array_equal(keep, arg): raise Mismatch(what + ': the wavelengths passed in were changed')
        elif op == 'delay':
            a = axis(st['a']); l1, l2 = (lam(l) for l in st['l'])
            kw = {}
            if st['q'] >= 0: kw['crystal_length_mks'] = st['q']*x['len']*L0
            if a is not None: kw['axis'] = a
            got = cr.calculate_pulse_delay_ps(l1, l2, **kw)
            if how == 'poly': want = scale*st['v']*L0*1e9/C
            else: want = (ng(i, st['a'], st['p'], l1) - ng(i, st['a'], st['p'], l2))*x['len']*L0*(1 if st['q'] < 0 else st['q'])*1e9/C
            close(got, want, 1e-7, 1e-10*x['len']*3*L0*1e9/C*2, what)
        elif op == 'bw':
            a = axis(st['a']); b = st['b']
            if how == 'poly': p, sg, il = (b[k]*unit for k in 'psi')
            else:
                f = {'flat': 150., 'two': 330.}[x['kind']]
                f *= r.uniform(1, 1.1)
                p, sg, il = (b[k]*f for k in 'psi')
                if il > 5500 or sg > 5500 or p < (600 if x['kind'] == 'flat' else 1000): continue
            many = r.random() < .4
            kw = {} if a is None else dict(axis=a)
            got = cr.calculate_mix_phasematching_bw(p, np.array([sg, sg*1.0]) if many else sg, **kw)
            if how == 'poly': spread = scale*st['v']
            else: spread = max(abs(ng(i, st['a'], st['p'], sg) - ng(i, st['a'], st['p'], p)), abs(ng(i, st['a'], st['p'], il) - ng(i, st['a'], st['p'], p)))
            if spread < 3e-6: continue
            want = np.array([.886*math.pi/spread]*2) if many else .886*math.pi/spread
            close(got, want, 1e-3, 0, what)
        elif op == 'invert':
            if how == 'poly' or x['kind'] != 'flat': continue
            pump = r.uniform(600, 1200) if r.random() < .6 else r.uniform(1100, 1800)
            top = r.choice([2000, 2000, 3000, 4000, 1.9*pump])
            sg = pump*1.001 + (top - pump*1.001)*st['w']/100.
            if r.random() < .4:         # close to the pump, whose idler is far in the infrared
                pump = r.uniform(330, 620); top = r.choice([2000, 1.5*pump]); sg = pump*(1.03 + .1*(st['w']/100.)**2)
            if top < pump*1.05 or not 1000 < 1/(1/pump - 1/sg) < 7800: continue
            n = n_of(i, 'none', st['p'])
            if not n(1/(1/pump - 1/sg)) > 1: continue
            def qpm(l):
                il = 1/(1/pump - 1/l)
                return (n(pump)/pump - n(l)/l - n(il)/il)*1e9 - 3.2/(x['len']*L0)/(2*math.pi)      # 1/period, per metre
            P = cr.calculate_poling_period(pump, sg, None, silent=True)[0]
            if abs(1/P - qpm(sg)) > 1e-9*abs(n(pump)/pump*1e9): raise Mismatch('%s: period %r, specification %r' % (what, P, 1/qpm(sg)))
            if not (P > 0 and abs(qpm(sg)) > 1e3): continue
            c.notes['inversions'] = c.notes.get('inversions', 0) + 1
            got = cr.invert_dfg_qpm_to_signal_wl(pump, P) if top == 2000 else cr.invert_dfg_qpm_to_signal_wl(pump, P, max_signal_wl_nm=top)
            if not pump*1.0009 <= got <= top*1.0001: raise Mismatch('%s: signal %r outside the range asked for' % (what, got))
            if not abs(1/qpm(got) - P) <= 2e-4*P: raise Mismatch('%s: signal %r has period %r, asked for %r (pump %r, up to %r)' % (what, got, 1/qpm(got), P, pump, top))
