"""Problems of the interleaving check, and their solo runs in a fresh interpreter (python -m vlib.solo)."""
import hashlib, json, sys
import numpy as np

KMAX = 8
def problems(seed):
    r = np.random.RandomState(seed)
    out = {}
    for i in range(1, 7):
        kind = ['osc', 'stiff', 'cplx', 'poly', 'logistic', 'osc'][i-1]
        out[i] = dict(kind=kind, w=float(r.uniform(.5, 3)), x0=float(r.uniform(-1, 1)), h=float(10**r.uniform(-1.5, .8)),
                      sgn=int(r.choice([1, -1])), atol=float(10**r.uniform(-12, -6)), rtol=float(10**r.uniform(-12, -6)), n=int(r.randint(1, 4)))
    return out

class RHS:
    def __init__(self, p): self.p = p; self.hook = None; self.calls = 0
    def arm(self, n, fn): self.hook = (self.calls + n, fn)
    def deriv(self, x, y, dydx):
        self.calls += 1
        if self.hook and self.calls == self.hook[0]:
            fn = self.hook[1]; self.hook = None; fn()
        p = self.p; w = p['w']; k = p['kind']
        if k == 'osc': dydx[:] = np.roll(y, 1)*w*np.cos(3*w*x) - .3*y
        elif k == 'stiff': dydx[:] = -20*w*(y - np.cos(x))
        elif k == 'cplx': dydx[:] = 1j*w*y*np.abs(y)**2 + .1j*np.roll(y, -1)
        elif k == 'poly': dydx[:] = w*x**9 - y*x
        else: dydx[:] = w*y*(1 - y)

def y0(p):
    d = complex if p['kind'] == 'cplx' else float
    return np.array([.3 + .2*i for i in range(p['n'])], dtype=d)*((1+.5j) if d is complex else 1)

def make(p):
    from pynlo.util.ode_solve import dopr853
    rhs = RHS(p); y = y0(p); dydx = np.zeros_like(y)
    rhs.deriv(p['x0'], y, dydx)
    s = dopr853.StepperDopr853(y, dydx, p['x0'], p['atol'], p['rtol'], True)
    s.hnext = p['h']*p['sgn']
    return s, rhs

def digest(*arrays):
    m = hashlib.sha1()
    for a in arrays: m.update(np.ascontiguousarray(a).tobytes())
    return m.hexdigest()

def state(s):
    if s.hdid == 0: return digest(np.float64(s.x), s.y)
    return digest(np.float64([s.x, s.hdid, s.hnext]), s.y, s.dydx, s.dense_out(s.xold + .37*s.hdid, s.hdid))

def whole(p, n):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    y = y0(p); out = ode_solve.Output() if n < 0 else ode_solve.Output(n)
    o = ode_solve.ODEint(y, p['x0'], p['x0'] + 2.0*p['sgn'], p['atol'], p['rtol'], p['h'], 0.0, out, dopr853.StepperDopr853, RHS(p), dense=n > 0)
    o.integrate()
    return digest(y, np.float64([o.nok, o.nbad, out.count]), *( [] if n < 0 else [out.xsave[:out.count], out.ysave[:out.count]]))

def solo(p):
    s, rhs = make(p); d = [state(s)]
    for _ in range(KMAX):
        s.step(s.hnext, rhs); d.append(state(s))
    return dict(steps=d)

if __name__ == '__main__':
    # one child process per item, forked after the imports and before anything has been integrated
    import os
    from vlib.check import setup_repo
    setup_repo()
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    seed = int(sys.argv[1]); probs = problems(seed)
    for i in probs:
        for what in ('steps', '-1', '0', '3'):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                res = solo(probs[i]) if what == 'steps' else dict(whole=whole(probs[i], int(what)))
                print(json.dumps([i, what, res])); sys.stdout.flush(); os._exit(0)
            if os.waitpid(pid, 0)[1]: sys.exit('problem %d (%s) failed' % (i, what))
