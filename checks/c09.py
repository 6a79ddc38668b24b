"""C09: order conditions of the stepper, its dense output and its step size control."""
import math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch

SC = dict(properties=['AcceptedOnlyIfSmall', 'RejectShrinks', 'NoGrowthAfterReject', 'Limits'])
def run(c):
    ES = {-40, -3, -2, -1, 0, 1, 2, 3, 5}
    jobs = [(('RKTrees', dict(P=8)), dict(invariants=['Emit', 'Counts', 'Orders'])),
            (('StepControl', dict(ES=ES, DROPS={0, 2}, DEPTH=c.scale(3, 4), SIM=False, XS={0})), dict(invariants=['Emit', 'NoTie', 'BoundedRejections'], **SC)),
            (('StepControl', dict(ES=set(range(-6, 9)) | {-40}, DROPS={0, 1, 3, 6}, DEPTH=12, SIM=True, XS={0})),
             dict(invariants=['Emit', 'NoTie', 'BoundedRejections'], simulate=c.scale(300, 5000), depth=300, seed=c.seed*37)),
            (('Poly', dict(DEPTH=3)), dict(invariants=['Emit', 'FundamentalTheorem'], simulate=c.scale(300, 5000), depth=5, seed=c.seed*41)),
            (('StepControl', dict(ES={0}, DROPS={0}, DEPTH=1, SIM=False, XS={-6000001 + 1300007*k for k in range(12)})), dict(spec='SpecU', invariants=['EmitU', 'NoTieU'], properties=['Fails']))]
    c.assumptions.append('error weights compared with the DOP853 coefficients shipped with SciPy; problems scaled so that the error of a trial is known in closed form')
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    r = random.Random(c.seed)
    for k in range(c.scale(24, 200)):
        c.replay(dict(trees=rs[0].lines[0]['t'], seed=r.random()), lambda t: trees(c, t), label='order conditions', sample=False)
        if len(c.violations) >= 5: return
    K = kappa()
    lines = rs[1].lines; r.shuffle(lines)
    for tr in lines[:c.scale(1200, 20000)] + rs[2].lines:
        c.replay(tr, lambda t: control(c, t, r.random(), K), label='controller')
        if len(c.violations) >= 5: return
    for tr in rs[2].lines + lines[:300]:
        c.replay(tr, lambda t: weights(c, t, r.random()), label='error weights', sample=False)
        if len(c.violations) >= 5: return
    for tr in rs[4].lines:
        for k in range(4):
            c.replay(tr, lambda t: hopeless(c, t, r.random()), label='hopeless step', seconds=20)
            if len(c.violations) >= 5: return
    for tr in rs[3].lines:
        c.replay(tr, lambda t: poly(c, t, r.random()), label='polynomial')
        if len(c.violations) >= 5: return

class Fn:
    def __init__(self, f): self.f = f
    def deriv(self, x, y, dydx): dydx[:] = self.f(x, y)

def stepper(y, dydx, x, atol, rtol, dense):
    from pynlo.util.ode_solve import dopr853
    return dopr853.StepperDopr853(y, dydx, x, atol, rtol, dense)

def trees(c, t):
    """One step from y = 0 on the forest system reproduces h^order/gamma for every tree."""
    r = random.Random(t['seed']); ts = t['trees']
    # independent components in random order, random start, size and direction, real or complex scale
    n = len(ts); perm = list(range(n)); r.shuffle(perm); pos = {p: i for i, p in enumerate(perm)}
    h = 2.0**r.randint(-6, 2)*r.choice([1, -1, .7, -.7, 3.1]); x0 = r.uniform(-5, 5)
    cplx = r.random() < .5; dt = complex if cplx else float
    # y_i scaled: y_i = w^order(i) * true, i.e. the leaf derivative is w
    w = complex(r.uniform(-2, 2), r.uniform(-2, 2)) if cplx else r.choice([-1, 1])*r.uniform(.3, 2)
    def f(x, y):
        d = np.empty(n, dtype=dt)
        for i, tt in enumerate(ts):
            v = w
            for ch in tt['ch']: v = v*y[pos[ch-1]]
            d[pos[i]] = v
        return d
    y = np.zeros(n, dtype=dt); dydx = np.array(f(x0, y), dtype=dt)
    s = stepper(y, dydx, x0, 1e30, 0.0, False)
    s.step(h, Fn(f))
    if s.hdid != h: raise Mismatch('step of %r was reduced to %r although the tolerance is huge' % (h, s.hdid))
    for i, tt in enumerate(ts):
        want = (w*h)**tt['o']/tt['g']
        if not abs(s.y[pos[i]] - want) <= 1e-11*abs(w*h)**tt['o']:
            raise Mismatch('order condition of tree %s (order %d) fails: got %r, specification %r (h=%r)' % (tt['ch'], tt['o'], s.y[pos[i]], want, h))
        c.steps += 1
    if abs(s.x - (x0 + h)) > 1e-14*(abs(x0) + abs(h)): raise Mismatch('position after the step')
    if np.max(np.abs(s.dydx - f(s.x, s.y))) > 1e-10*np.max(np.abs(s.dydx)): raise Mismatch('derivative handed to the next step is not that of the new state')

def kappa():
    """err(f, h): scaled error, per unit of weight, of a step of size h on y' = f(x) from x = 0, from SciPy's DOP853 coefficients."""
    from scipy.integrate._ivp import dop853_coefficients as d
    C = np.append(d.C[:12], 1.0); E5, E3 = d.E5[:13], d.E3[:13]
    def err(f, h):
        k = f(C*h)
        e5 = abs(np.dot(E5, k)); e3 = abs(np.dot(E3, k)); q = e5**2 + .01*e3**2
        return 0.0 if q == 0 else abs(h)*e5**2/math.sqrt(q)
    return err

PROFILES = {}
def profile(err, want):
    """want: (length, scaled error) of the tries, longest first.  f(x) = k_i x^7, x beyond try i+1 and up to try i,
    with coefficients such that each try has the wanted error."""
    key = tuple(want)
    if key not in PROFILES: PROFILES[key] = solve(err, want)
    return PROFILES[key]

def solve(err, want):
    from scipy.optimize import brentq
    ends, ks = np.array([]), np.array([])             # outer ends and coefficients, inner segments first
    def f(x, ends, ks): return np.append(ks, 0.0)[np.searchsorted(ends*(1 + 1e-9), x)]*x**7
    for h, e in reversed(want):
        unit = e/err(lambda x: x**7, h); ends = np.append(ends, h)
        g = lambda q: err(lambda x: f(x, ends, np.append(ks, q*unit)), h) - e
        root = None
        if abs(g(1.0)) < 1e-13*e: root = 1.0
        else:
            qs = [0.0] + [10**(v/2) for v in range(-10, 11)]
            for sgn in (1, -1):
                gs = [g(sgn*q) for q in qs]
                k = next((k for k in range(len(qs) - 1) if gs[k]*gs[k+1] <= 0), None)
                if k is not None: root = brentq(g, sgn*qs[k], sgn*qs[k+1], xtol=1e-300, rtol=1e-14); break
            if root is None: return None
        ks = np.append(ks, root*unit)
    return lambda x: f(x, ends, ks)

class Seen(Exception): pass
def weights(c, tr, seed):
    """The first try of a trace, on components of very different size, growth and direction: the scaled error weighs each
    by the larger of its values before and after the step."""
    from scipy.integrate._ivp import dop853_coefficients as d
    r = random.Random(seed); n = r.choice([1, 2, 3, 7]); cplx = r.random() < .5; dt = complex if cplx else float
    Cs = np.append(d.C[:12], 1.0)
    ph = lambda: complex(np.exp(1j*r.uniform(0, 7))) if cplx else r.choice([1.0, -1.0])
    h0 = r.choice([1, -1])*10**r.uniform(-3, 3); x0 = r.uniform(-1, 1)*abs(h0)
    y0 = np.array([r.choice([0, 10**r.uniform(-3, 3)])*ph() for _ in range(n)], dt)
    A = np.array([r.choice([0, 10**r.uniform(-3, 1.5)])*ph() for _ in range(n)], dt)
    if r.random() < .3: A = -y0*r.uniform(.9, 1.1)
    B = np.array([10**r.uniform(-2, 0)*ph() for _ in range(n)], dt)
    f = lambda x: (A + B*((x - x0)/h0)**7)/h0
    k7 = Cs**7; e5 = abs(B*np.dot(d.E5[:13], k7)); e3 = abs(B*np.dot(d.E3[:13], k7))
    rho = r.choice([0.0, 1.0, 10**r.uniform(-3, 3)]); alpha = 1.0
    w = alpha + rho*np.maximum(abs(y0), abs(y0 + A + B/8))
    s5, s3 = np.sum((e5/w)**2), np.sum((e3/w)**2); err = s5/math.sqrt((s5 + .01*s3)*n)
    first = tr['h'][0]; e = first['tries'][0]['e']
    tau = err/math.exp(8*(e*math.log(2) - math.log(1.17)))
    calls = []
    class R:
        def deriv(self, x, y, dydx):
            calls.append(x)
            if len(calls) == 13: raise Seen
            dydx[:] = f(x)
    s = stepper(y0.copy(), f(x0).astype(dt), x0, alpha*tau, rho*tau, False)
    ok = len(first['tries']) == 1
    try: s.step(h0, R()); done = True
    except Seen: done = False
    c.steps += 1
    if done != ok: raise Mismatch('a try of scaled error %.3g was %s' % (err/tau, 'accepted' if done else 'rejected'))
    got, want = (s.hnext, h0*math.exp(ln(first['next']))) if ok else ((calls[11] - x0)/float(d.C[1]), h0*math.exp(ln(first['tries'][1]['h'])))
    if len(calls) >= 12 and not abs(got - want) <= 1e-6*abs(want): raise Mismatch('scaled error %.3g: %s %r, specification %r' % (err/tau, 'proposes' if ok else 'retries with', got, want))

def hopeless(c, t, seed):
    """No size satisfies the error: the step must shrink, and fail when it no longer resolves the position."""
    r = random.Random(seed); n = r.choice([1, 3]); dt = complex if r.random() < .4 else float
    h0 = 10**r.uniform(-3, 3); tol = 10**r.uniform(-8, 0); x = r.choice([1, -1])*h0*math.exp(t['lx']*1e-6)
    class R:
        calls = 0
        def deriv(self, x, y, dydx): R.calls += 1; dydx[:] = [tol/h0*1e50*r.choice([1, -1])*r.uniform(1, 2) for _ in range(n)]
    s = stepper(np.zeros(n, dt), np.zeros(n, dt), x, tol, 0.0, r.random() < .5)
    try: s.step(r.choice([1, -1])*h0, R())
    except (ArithmeticError, RuntimeError): pass
    else: raise Mismatch('a step was accepted whatever its error (h0=%r, x=%r)' % (h0, x))
    c.steps += t['tries']
    if s.x != x: raise Mismatch('the position moved although the step failed')
    if R.calls != 11*t['tries']: raise Mismatch('%d tries before the step failed, specification %d (h0=%r, x=%r)' % (R.calls/11, t['tries'], h0, x))

def ln(e): return e[0]*math.log(2) + e[1]*math.log(.9) + e[2]*math.log(.333) + e[3]*math.log(6) + e[4]*math.log(1.17)

def control(c, tr, seed, K):
    r = random.Random(seed)
    n = r.choice([1, 1, 2, 5]); m = r.choice([n, 1])            # m of n components carry the error
    cplx = r.random() < .4; dt = complex if cplx else float
    sg = r.choice([1, -1]); h0 = 10**r.uniform(-3, 3)
    tol = 10**r.uniform(-8, 3); big = 10**r.uniform(4, 8)*tol; rt = r.random() < .4
    y0 = np.zeros(n, dtype=dt); atol, rtol = tol, 0.0
    if rt:                          # the same weight from the relative tolerance: |y| never changes noticeably
        rtol = 10**r.uniform(-5, -3); scale = tol/rtol*.5; y0[:] = scale*np.exp(1j*r.uniform(0, 6)).real if not cplx else scale*np.exp(1j*r.uniform(0, 6))
        y0[:] = y0/np.abs(y0)*scale; atol = tol*.5
        sc = r.choice([1e12, 1e14]); y0 *= sc; rtol /= sc
    st = dict(x=0.0, C=0.0)
    tries = []
    dirn = np.array([1.0 if i < m else 0.0 for i in range(n)], dtype=dt)*(np.exp(1j*r.uniform(0, 6)) if cplx else r.choice([1, -1]))
    def f(x, y):
        return dirn*st['C']*st['f'](abs(x - st['x'])/h0)*sg
    class R:
        def deriv(self, x, y, dydx):
            dydx[:] = f(x, y); tries.append(x)
    dydx = np.zeros(n, dtype=dt)
    s = stepper(y0.copy(), dydx, r.choice([0.0, h0]), atol, rtol, r.random() < .3)
    h = sg*h0
    for i, e in enumerate(tr['h']):
        where = 'accepted step %d, hardness %s' % (i, [t['e'] for t in e['tries']])
        # sk = tol whatever the mode; st['f'] is in units of h0, so the scaled error is that of st['f'] itself
        st['x'] = s.x; st['f'] = profile(K, [(math.exp(ln(t['h'])), math.exp(8*(ln(t['h']) + t['e']*math.log(2) - math.log(1.17)))) for t in e['tries']])
        if st['f'] is None: return
        st['C'] = tol/h0/math.sqrt(m/n)
        if rt: s.y = y0.copy()
        s.dydx[:] = 0; tries.clear()
        s.step(h, R())
        want_try = [sg*h0*math.exp(ln(x['h'])) for x in e['tries']]
        hd, hn = want_try[-1], sg*h0*math.exp(ln(e['next']))
        if abs(s.hdid - hd) > 1e-7*abs(hd): raise Mismatch('%s: did %r, specification %r (asked for %r; scaled errors %s)' % (where, s.hdid, hd, h, [round(math.exp(8*(ln(t['h']) + t['e']*math.log(2) - math.log(1.17))), 3) for t in e['tries']]))
        if abs(s.hnext - hn) > 1e-7*abs(hn): raise Mismatch('%s: proposes %r, specification %r' % (where, s.hnext, hn))
        # the points at which the right-hand side is asked for show every trial
        far = [p - st['x'] for p in tries]
        for w in want_try:
            if not any(abs(q - w) < 1e-6*abs(w) for q in far): raise Mismatch('%s: no trial of size %r; specification tries %s' % (where, w, want_try))
        if len(far) > 12*len(want_try) + 3: raise Mismatch('%s: %d evaluations for %d trials' % (where, len(far), len(want_try)))
        if s.dydx is not dydx and s.dydx.base is None: pass
        c.steps += 1
        h = s.hnext
        # keep positions small so that (x - start) is exact enough
        s.x = 0.0

def poly(c, tr, seed):
    r = random.Random(seed)
    n = len(tr['p']); cplx = r.random() < .5; dt = complex if cplx else float
    u = 2.0**r.randint(-4, 3); sg = r.choice([1, -1]); amp = np.array([complex(r.uniform(-1, 1), r.uniform(-1, 1)) if cplx else r.uniform(-1, 1) for _ in range(n)])
    def val(i, x): return amp[i]*sum(k*(x/u)**j for j, k in enumerate(tr['p'][i]['c']))
    sh = r.choice([0.0, u*r.randint(-8, 8)])
    x = tr['x0']*u*sg + sh
    f = lambda x, y: np.array([val(i, sg*(x - sh)) for i in range(n)], dtype=dt)
    y0 = np.array([r.randint(-3, 3) for _ in range(n)], dtype=dt)
    s = stepper(y0.copy(), np.array(f(x, y0), dtype=dt), x, 1e30, 0.0, True)
    y = y0.copy()
    for k, stp in enumerate(tr['steps']):
        h = stp['h']*u*sg
        s.step(h, Fn(f))
        inc = np.array([amp[i]*u*sg*sum(a/b for a, b in stp['inc'][i]) for i in range(n)])
        mag = np.array([abs(amp[i])*u*sum(abs(a/b) for a, b in stp['inc'][i]) + 1 for i in range(n)])
        if np.any(np.abs(s.y - (y + inc)) > 1e-11*mag): raise Mismatch('step %d: %s, specification %s' % (k, s.y, y + inc))
        for q in stp['dense']:
            xi = s.xold + h*q['t'][0]/q['t'][1]
            d = s.dense_out(xi, s.hdid)
            for i in range(n):
                if tr['p'][i]['deg'] > 6: continue
                want = y[i] + amp[i]*u*sg*sum(a/b for a, b in q['inc'][i])
                if abs(d[i] - want) > 1e-10*mag[i]: raise Mismatch('step %d dense output at %s of the step: %r, specification %r (degree %d)' % (k, q['t'], d[i], want, tr['p'][i]['deg'] + 1))
                c.steps += 1
        y = y + inc
