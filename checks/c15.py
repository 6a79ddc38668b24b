"""C15: the refractive index of a crystal, with and without its cache."""
import copy, json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X

ALL = dict(SIM=False, NX=2, NP=1, NG=2, NV=2, KEY={'param', 'axis', 'grid', 'sell'}, COPYIN=True, COPYOUT=True, SHARED=False, LIVE=True)
def run(c):
    r = random.Random(c.seed*151)
    q = c.scale(1, 10)
    ex = dict(ALL, DEPTH=c.scale(4, 5))
    jobs = [(('CrystalCache', ex), dict(invariants=['CacheInvisible', 'CacheSound'], view='View', workers=4))]
    small = dict(ALL, DEPTH=4, NX=1)
    jobs.append((('CrystalCache', small), dict(invariants=['CacheInvisible', 'Emit'], workers=2)))
    # the invariant is about something: a cache whose key or copies leave something out breaks it
    broken = [dict(KEY=ALL['KEY'] - {k}) for k in sorted(ALL['KEY'])] + [dict(COPYIN=False), dict(COPYOUT=False), dict(SHARED=True)]
    for b in broken:
        jobs.append((('CrystalCache', dict(ALL, DEPTH=6, **b)), dict(invariants=['CacheInvisible'], view='View', allow_violation=True)))
    for k in range(3):
        jobs.append((('CrystalCache', dict(ALL, DEPTH=10 + 8*k, SIM=True, NX=3, NP=3, NG=6, NV=4)), dict(invariants=['Emit', 'CacheInvisible', 'CacheSound'], simulate=70*q, depth=40, seed=c.seed*17 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    for b, x in zip(broken, rs[2:2 + len(broken)]):
        if x.ok or 'Invariant CacheInvisible is violated' not in x.out: raise tlc.TLCError('the broken cache %r was not told apart\n%s' % (b, x.out[-1500:]))
    c.notes['defective caches refuted in the model'] = len(broken)
    ls = [l for x in rs[2 + len(broken):] for l in x.lines]
    ex = [l for l in rs[1].lines if sum(s['op'] == 'n' for s in l['h']) >= 2]; r.shuffle(ex)
    ex = [l for l in ex if telling(l['h'])][:c.scale(200, 3000)] + r.sample(rs[1].lines, 100)
    seen = {json.dumps(l): l for l in ls}; ls = list(seen.values()); r.shuffle(ls)
    for t in ex[:c.scale(300, 3000)] + ls[:c.scale(400, 4000)]:
        c.replay(t, lambda t: replay(c, t, r.random()), label='history')
        if len(c.violations) >= 5: return

def telling(h):
    """Does a crystal whose caching is on answer two queries differently?"""
    on, last = [], {}
    for s in h:
        if s['op'] == 'new': on.append(s['on'])
        elif s['op'] == 'clone': on.append(on[s['i'] - 1])
        elif s['op'] == 'caching': on[s['i'] - 1] = s['on']
        elif s['op'] == 'n' and on[s['i'] - 1]:
            if last.get(s['i'], s['v']) != s['v']: return True
            last[s['i']] = s['v']
    return False

def replay(c, tr, seed):
    r = random.Random(seed)
    grids = X.grids(r); N = len(grids)
    par = {'T': X.close(r, 20, 200, low=-6.5), 'theta': X.close(r, 0, math.pi/2, low=-6.5)}
    ps = [X.pulse_on(grids[0], r) for _ in range(3)]
    on_grid = [0]*3
    xs = []; arrs = []
    def value(v): return X.index(v[0], v[2], par['T' if v[0] == 'ppln' else 'theta'][v[1] - 1] if v[1] else 0, v[3], X.wl(grids[v[4] - 1]))
    def cmp(got, v, what, k=False):
        want = value(v); w = X.wl(grids[v[4] - 1])
        if k: want = 2*np.pi*want/(w*1e-9)
        if not (isinstance(got, np.ndarray) and got.shape == want.shape): raise Mismatch('%s: the answer is %r' % (what, type(got)))
        if not np.allclose(got, want, rtol=1e-11, atol=0, equal_nan=True):
            raise Mismatch('%s: differs from the %s of %r by up to %g' % (what, 'wavenumber' if k else 'index', v, np.nanmax(np.abs(got/want - 1))))
    for t, s in enumerate(tr['h']):
        c.steps += 1
        op = s['op']; what = 'step %d (%s)' % (t + 1, op)
        if op == 'new':
            p = par['T' if s['kind'] == 'ppln' else 'theta'][s['v'] - 1]
            kw = {}
            if s['on'] or r.random() < .5: kw['enable_caching'] = s['on']
            if r.random() < .5: kw['length'] = r.uniform(1e-3, 5e-2)
            xs.append(X.make(s['kind'], p, **kw))
            xs[-1]._kind = s['kind']
        elif op == 'clone': xs.append(copy.deepcopy(xs[s['i'] - 1]))
        elif op == 'param':
            x = xs[s['i'] - 1]
            if x._kind == 'ppln': x.set_T(par['T'][s['v'] - 1])
            else: x.set_theta(par['theta'][s['v'] - 1])
        elif op == 'load':
            x = xs[s['i'] - 1]
            T = par['T'][s['v'] - 1]
            if s['sell'] == 'Gayer_5pctMg' and r.random() < .5: x.load(T)
            else: x.load(T, s['sell'])
        elif op == 'caching':
            if s['on'] and r.random() < .5: xs[s['i'] - 1].set_caching()
            else: xs[s['i'] - 1].set_caching(s['on'])
        elif op == 'move': X.move(ps[s['j'] - 1], grids[s['g'] - 1], r)
        elif op == 'write':
            a = arrs[s['m'] - 1]
            a *= 2; a += 1
        elif op == 'bad':
            x = xs[s['i'] - 1]
            for f in (x.get_pulse_n, x.get_pulse_k):
                try: f(ps[s['j'] - 1], r.choice(['E', 'x', '', 'both', 'mixed']))
                except ValueError: pass
                else: raise Mismatch('%s: an unknown axis was accepted' % what)
        else:
            x, p = xs[s['i'] - 1], ps[s['j'] - 1]
            ax = None if s['a'] == 'none' else s['a']
            if x._kind == 'ppln' and r.random() < .3: ax = r.choice(['e', 'mix', 'o'])     # ignored: only one axis is modelled
            if op == 'n':
                if ax is None and r.random() < .5: got = x.get_pulse_n(p)
                else: got = x.get_pulse_n(p, r.choice([ax]) if r.random() < .5 else ax)
                cmp(got, s['v'], what); arrs.append(got)
            else:
                got = x.get_pulse_k(p) if ax is None and r.random() < .5 else x.get_pulse_k(p, axis=ax)
                cmp(got, s['v'], what, True); got *= -3
            w = X.wl(grids[s['v'][4] - 1])
            for m in (0, len(w)//3, len(w) - 1):        # and the direct query agrees
                y = x.n(w[m]) if ax is None else x.n(w[m], ax)
                if not np.allclose(y, value(s['v'])[m], rtol=1e-11, atol=0, equal_nan=True): raise Mismatch('%s: n(%r) is %r' % (what, w[m], y))
    for m, v in enumerate(tr['held']):
        if v != ['written']: cmp(arrs[m], v, 'array %d returned earlier' % (m + 1))
