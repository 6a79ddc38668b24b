"""C17: the rates of three-wave mixing."""
import json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib.mixing import Problem, C

INV = ['PhotonBalance', 'Reach', 'Covariant', 'Exchange']
def run(c):
    r = random.Random(c.seed*171)
    q = c.scale(1, 8)
    one = dict(SIM=False, NPROB=1, HS={2} if c.thorough else {1}, AMP=1, DEPTH=1)
    jobs = [(('Mixing', one), dict(invariants=INV, workers=2))]
    for k, hs in enumerate(({2, 4}, {4, 8}, {3, 5, 16})):
        jobs.append((('Mixing', dict(SIM=True, NPROB=2, HS=hs, AMP=[1, 9, 3][k], DEPTH=[12, 6, 5][k])), dict(invariants=['Emit'] + INV, simulate=[80, 80, 40][k]*q, depth=14, seed=c.seed*23 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = [l for x in rs[1:] for l in x.lines]; r.shuffle(ls)
    for t in ls[:c.scale(200, 1600)]:
        c.replay(t, lambda t: rates(c, t, r.random()), label='rates')
        if len(c.violations) >= 5: return
    for k in range(c.scale(4, 40)):
        c.replay(dict(integration=k, seed=c.seed), lambda t: whole(c, r.random()), label='integration')
    c.replay(dict(chi3=1), lambda t: default(c, r.random()), label='chi-3 terms left on')

def gauss(v): return np.array([complex(*x) for x in v])

def rates(c, tr, seed):
    from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
    r = random.Random(seed)
    N = 2*tr['h']
    have = D.PYFFTW_AVAILABLE if hasattr(D, 'PYFFTW_AVAILABLE') else None
    if have is not None and r.random() < .3: D.PYFFTW_AVAILABLE = False
    try: ps = [Problem(r, N) for _ in range(2)]
    finally:
        if have is not None: D.PYFFTW_AVAILABLE = have
    for p in ps:
        if max(p.w[0]) > min(p.w[1]): raise RuntimeError('grids')
    kept = []
    for t, e in enumerate(tr['ev']):
        c.steps += 1
        p = ps[e['q'] - 1]
        if e['op'] == 'focus':
            p.refocus(['pump', 'sgnl', 'idlr'].index(e['w'])); c.notes['refocused'] = c.notes.get('refocused', 0) + 1
            continue
        z = p.position(e['s']); sg = p.sign(z)
        if r.random() < .1 and p.period is None: z = r.choice([0.0, p.L, p.L/2*(1 + 1e-9)])
        while not p.wg and p.smallest(z) is None: z = p.position(sg)
        G = [gauss(e['f'][k]) for k in 'psi']; R = [gauss(e['r'][k]) for k in 'psi']
        ph = [p.phase(j, z) for j in range(3)]; P = [p.factor(j, z) for j in range(3)]
        scale = [P[j][N//2]*10**r.uniform(-4, 5) for j in range(3)]
        y = np.hstack([scale[j]*G[j]/(P[j]*ph[j]) for j in range(3)])
        y0 = y.copy(); out = np.full(3*N, 7 + 7j)
        if kept and r.random() < .3: out = kept[-1][0].copy()
        p.d.deriv(z, y, out)
        if not np.array_equal(y, y0): raise Mismatch('step %d: the fields given were changed' % (t + 1))
        big = [scale[1]*scale[2], scale[0]*scale[2], scale[0]*scale[1]]
        n2 = [np.sqrt(np.sum(abs(g)**2)) for g in G]
        tot = [n2[1]*n2[2], n2[0]*n2[2], n2[0]*n2[1]]
        rate = []
        for j, nm in enumerate(('pump', 'signal', 'idler')):
            d = out[j*N:(j + 1)*N]
            got = d*P[j]*ph[j]*C*p.n[j]/(2j*p.W[j]*p.deff*sg)/big[j]
            err = np.abs(got - R[j])
            if not np.all(err <= 1e-8*(tot[j] + 1e-3)):
                b = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
                raise Mismatch('step %d: %s bin %d of %d is driven by %r, the pairs of bins that balance give %r (%s, z=%g of %g, poling %d%s)' % (t + 1, nm, b - N//2, N, got[b], R[j][b], p.kind, z, p.L, sg, ', waveguide' if p.wg else ''))
            # photons per unit of mode area (the area is common in a waveguide)
            rate.append(float(np.sum((np.conj(y[j*N:(j + 1)*N])*d).real/p.W[j]*p.n[j]*P[j]**2)))
        size = max(abs(v) for v in rate) + 1e-9*2*p.deff/C*tot[0]*n2[0]*scale[0]*scale[1]*scale[2] + 1e-300
        if abs(rate[0] + rate[1]) > 1e-6*size or abs(rate[1] - rate[2]) > 1e-6*size: raise Mismatch('step %d: photon rates do not balance: %r' % (t + 1, rate))
        kept.append((out, out.copy()))
        for a, b in kept:
            if not np.array_equal(a, b): raise Mismatch('step %d: an earlier answer was changed' % (t + 1))

def whole(c, seed):
    """Photon numbers through a whole integration in a waveguide (common mode area)."""
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    r = random.Random(seed)
    N = r.choice([8, 16])
    env = np.exp(-((np.arange(N) - N/2)/(N/8))**2)
    p = Problem(r, N, kind='ppln', wg=True, field=lambda: env*complex(r.gauss(0, 1), r.gauss(0, 1))*30)
    # strong enough to matter
    p.d.ystart[2*N:] = 5*env
    o = ode_solve.Output(6)
    end = min(p.L, r.uniform(1, 2.5)*p.period)*.999
    a = ode_solve.ODEint(p.d.ystart, 0.0, end, 1e-8, 1e-8, p.L/100, 0.0, o, dopr853.StepperDopr853, p.d, dtype=np.complex128)
    a.integrate()
    ys = o.ysave[:o.count]
    num = [np.sum(abs(ys[:, j*N:(j + 1)*N])**2/p.W[j], axis=1) for j in range(3)]
    tot = sum(n[0] for n in num)
    c.steps += 1
    if np.max(abs(num[0] + num[1] - num[0][0] - num[1][0])) > 1e-5*tot or np.max(abs(num[1] - num[2] - num[1][0] + num[2][0])) > 1e-5*tot:
        raise Mismatch('photon numbers along the crystal: pump %r, signal %r, idler %r' % tuple(n.tolist() for n in num))
    c.notes['photon exchange seen'] = max(c.notes.get('photon exchange seen', 0), float(np.max(abs(num[0] - num[0][0]))/tot))

def default(c, seed):
    from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
    import matplotlib.pyplot as plt
    p = Problem(random.Random(seed), 8, kind='ppln', wg=False)
    d = D.dfg_problem(p.pump, p.sgnl, p.x, pump_waist=1e-4); plt.close('all')
    out = np.zeros(24, complex)
    d.deriv(p.L/3, d.ystart, out)
    if not np.all(np.isfinite(out)): raise Mismatch('not finite')
