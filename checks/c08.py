"""C08: the ODE driver reaches exactly the end and saves exactly what was asked."""
import math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch

INV = ['Emit', 'NeverPass', 'Counts', 'ExactEnd']
def run(c):
    jobs = [(('OdeDriver', dict(RS=set(range(1, c.scale(7, 9))), HS={1, 2, 3, 8}, MAXS={2, 4}, HMINS={0, 3}, SIM=False)),
             dict(invariants=INV, properties=['Monotone', 'Terminates'])),
            (('OdeDriver', dict(RS={12, 30, 64, 100}, HS={1, 2, 4, 7, 12, 40, 200}, MAXS={300}, HMINS={0}, SIM=True)),
             dict(invariants=INV, simulate=c.scale(150, 3000), depth=400, seed=c.seed*19)),
            (('OdeDriver', dict(RS={1600, 3000}, HS={1, 2, 3}, MAXS={3000}, HMINS={0}, SIM=True)),
             dict(invariants=INV, simulate=c.scale(3, 12), depth=3200, seed=c.seed*23, heap='4g')),
            (('OdeDriver', dict(RS={12, 64, 100}, HS={2, 4, 12, 40, 200}, MAXS={3, 6, 300}, HMINS={0, 5, 9, 25}, SIM=True)),
             dict(invariants=INV, simulate=c.scale(200, 3000), depth=400, seed=c.seed*29))]
    c.assumptions.append('the stepper is scripted: it may do any divisor-shaped part of the step asked for and propose any next step')
    for b, rs in enumerate(tlc.many(jobs)):
        c.tlc(rs, 'states_exhaustive' if b == 0 else 'states_simulated')
        lines = rs.lines
        if b == 0:
            random.Random(c.seed).shuffle(lines); lines = lines[:c.scale(2500, 40000)]
        for i, tr in enumerate(lines):
            c.replay(tr, lambda t: replay(c, t, c.seed*6151 + 100003*b + i), sample=(i < 1))
            if len(c.violations) >= 5: return

def replay(c, tr, seed):
    from pynlo.util import ode_solve
    r = random.Random(seed)
    exact = r.random() < .7
    sign = r.choice([1, -1])
    if exact: u = 2.0**r.randint(-12, 3); x1 = u*r.choice([0, 1, -1, -tr['r'], tr['r'], r.randint(-3000, 3000), r.randint(-2**24, 2**24)])
    else: u = 10**r.uniform(-5, 3); x1 = r.choice([0.0, r.uniform(-2, 2)*u*tr['r']])
    if not exact and tr['status'] != 'done': exact = True; u = 2.0**-5; x1 = 3*u
    x2 = x1 + sign*u*tr['r']
    cplx = r.random() < .4
    dtype = complex if cplx else float
    n = r.randint(1, 3)
    # the solution of the scripted problem, linear in x: y_i = a_i (x - x1) + b_i
    a = np.array([r.randint(1, 5) for _ in range(n)], dtype=dtype); b = np.array([r.randint(-3, 3) for _ in range(n)], dtype=dtype)
    if cplx: a = a*(1-2j)
    sol = lambda x: a*(x - x1) + b
    mode = r.choice(['none', 'dense', 'dense', 'dense', 'steps', 'steps1'])
    log = []
    class RHS:
        calls = 0
        def deriv(self, x, y, dydx):
            self.calls += 1; dydx[:] = a
    class Scripted:
        """Does what the specification's environment did."""
        def __init__(self, y, dydx, x, atol, rtol, dense):
            self.x = x; self.y = y; self.dydx = dydx; self.neqn = len(y); self.n = len(y); self.xold = x
            self.atol, self.rtol, self.dense = atol, rtol, dense
            self.hdid = self.hnext = 0.0; self.i = 0
        def step(self, htry, rhs):
            if not np.array_equal(self.dydx, a): raise Mismatch('first derivative was not evaluated before stepping')
            if self.i < len(tr['steps']): s = tr['steps'][self.i]
            elif exact: raise Mismatch('a step of %r was asked for after the specification has ended (%s)' % (htry, tr['status']))
            else: s = dict(did=1, next=tr['hmin'] + 1); s['try'] = 1
            frac = s['did']/s['try']
            if exact and htry != sign*u*s['try']:
                raise Mismatch('step %d asked for %r, specification %r' % (self.i, htry, sign*u*s['try']))
            if (self.x + htry - x2)*sign > 1e-9*abs(x2 - x1): raise Mismatch('step %d of %r from %r would pass %r' % (self.i, htry, self.x, x2))
            if htry*sign <= 0: raise Mismatch('step %d of %r goes the wrong way' % (self.i, htry))
            self.hdid = htry if frac == 1 else htry*frac
            self.xold = self.x; self.x = self.x + self.hdid
            self.y = sol(self.x)
            self.hnext = sign*u*s['next']; self.i += 1
            log.append((self.xold, self.x))
        def dense_out(self, x, h):
            if h != self.hdid: raise Mismatch('dense output asked with step %r, done %r' % (h, self.hdid))
            if ((x - self.xold)*sign < -1e-12*abs(x2-x1)) or ((x - self.x)*sign > 1e-12*abs(x2-x1)):
                raise Mismatch('dense output asked at %r, outside the step from %r to %r' % (x, self.xold, self.x))
            return sol(x)
    nsave = r.choice([1, 2, 3, 4, 7, 10, 64, 499, 500, 501, 1100]) if mode == 'dense' else None
    out = ode_solve.Output() if mode == 'none' else ode_solve.Output(nsave) if mode == 'dense' else \
          ode_solve.Output(0) if mode == 'steps' else ode_solve.Output(5)
    y0 = sol(x1).astype(dtype)
    h1 = u*tr['h0'] if tr['steps'] and tr['steps'][0]['x'] <= tr['r'] else u
    if tr['steps'] and tr['steps'][0]['try'] == tr['r'] and r.random() < .5: h1 = u*tr['r']*r.choice([1, 3, 50])
    h1 *= r.choice([1, -1])
    o = ode_solve.ODEint(y0, x1, x2, 1e-6, 1e-6, h1, u*tr['hmin']/2 if exact else 0.0, out, Scripted, RHS(), dense=(mode == 'dense'))
    if tr['maxs'] != 3000 or r.random() < .5: o.MAXSTP = tr['maxs'] + (0 if exact else 5)
    where = 'from %r to %r mode %s%s' % (x1, x2, mode, '' if nsave is None else nsave)
    err = None
    try: o.integrate()
    except RuntimeError as e: err = e
    c.steps += len(log)
    if tr['status'] != 'done':
        if err is None: raise Mismatch('%s: no error although %s' % (where, tr['status']))
        if len(log) != len(tr['steps']): raise Mismatch('%s: %d steps before the error, specification %d' % (where, len(log), len(tr['steps'])))
        return
    if err is not None: raise Mismatch('%s: unexpected error %s' % (where, err))
    if (o.s.x != x2 if exact else abs(o.s.x - x2) > 4e-16*max(abs(x1), abs(x2))): raise Mismatch('%s: stopped at %r' % (where, o.s.x))
    if exact:
        if (o.nok, o.nbad) != (tr['nok'], tr['nbad']): raise Mismatch('%s: counts %s, specification %s' % (where, (o.nok, o.nbad), (tr['nok'], tr['nbad'])))
        if len(log) != len(tr['steps']): raise Mismatch('%s: %d steps, specification %d' % (where, len(log), len(tr['steps'])))
    elif o.nok + o.nbad != len(log): raise Mismatch('%s: counts do not add up' % where)
    if not np.allclose(y0, sol(x2), rtol=1e-12, atol=1e-12): raise Mismatch('%s: final state handed back is %s, expected %s' % (where, y0, sol(x2)))
    if mode == 'none':
        if out.count != 0 or (out.xsave is not None and len(out.xsave)): raise Mismatch('%s: something was stored' % where)
        return
    if mode == 'dense': want = [x1 + (x2 - x1)*i/nsave for i in range(nsave + 1)]
    else: want = [x1] + [x for _, x in log]
    got = np.real(out.xsave[:out.count])
    if len(got) != len(want): raise Mismatch('%s: %d points saved, specification %d: %s' % (where, len(got), len(want), got[:6]))
    span = abs(x2 - x1) + 1e-3*max(abs(x1), abs(x2))
    if np.max(np.abs(got - np.array(want))) > 1e-11*span: raise Mismatch('%s: saved positions %s, specification %s' % (where, got[:6], want[:6]))
    if abs(got[-1] - x2) > 1e-13*max(abs(x1), abs(x2)): raise Mismatch('%s: last saved position %r' % (where, got[-1]))
    ys = out.ysave[:out.count]
    ref = np.array([sol(x) for x in want])
    if np.max(np.abs(ys - ref)) > 1e-10*(1 + np.max(np.abs(ref))): raise Mismatch('%s: saved states %s, specification %s' % (where, ys[:4], ref[:4]))
