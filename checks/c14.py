"""C14: what a fibre's description means on a pulse's grid."""
import json, math, os, random, shutil, tempfile
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import fibres as F

C_NMPS = 299792.458
INV = ['Removed', 'Recentred', 'Curvature', 'Coarse']
def run(c):
    r = random.Random(c.seed*141)
    q = c.scale(1, 10)
    jobs = [(('Fibre', dict(DEPTH=3, SIM=False, SMALL=True, NF=3)), dict(invariants=['Emit'] + INV, properties=['Unchanged'], workers=4))]
    for k in range(3):
        jobs.append((('Fibre', dict(DEPTH=8 + 3*k, SIM=True, SMALL=False, NF=1 if k == 1 else 3)), dict(invariants=['Emit', 'Removed'], properties=['Unchanged'], simulate=60*q, depth=20, seed=c.seed*19 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    seen = {json.dumps(l): l for x in rs[1:] for l in x.lines}
    ls = list(seen.values()); r.shuffle(ls)
    d = tempfile.mkdtemp(prefix='c14_')
    try:
        c.replay(dict(shipped='dudley'), lambda t: shipped(c), label='shipped database')
        for t in ls[:c.scale(500, 6000)]:
            c.replay(t, lambda t: replay(c, t, r.random(), d), label='session')
            if len(c.violations) >= 5: return
    finally: shutil.rmtree(d, ignore_errors=True)

def shipped(c):
    """The database fibre is the published one (Dudley, Genty and Coen 2006)."""
    from pynlo.media.fibers.fiber import FiberInstance
    b = [-11.83, 0.081038, -9.5205e-05, 2.0737e-07, -5.3943e-10, 1.3486e-12, -2.5495e-15, 3.0524e-18, -1.714e-21]
    f = FiberInstance(); f.load_from_db(.15, 'dudley')
    g = FiberInstance(); g.generate_fiber(.15, 835., b, .11, gvd_units='ps^n/km')
    p = F.pulse(256, 3.0, 835.0)
    v = p.V_THz; want = sum(x*1e-3*v**(k + 2)/math.factorial(k + 2) for k, x in enumerate(b))
    wl = 2*np.pi*C_NMPS/(2*np.pi*C_NMPS/835.0 + np.linspace(900., -560., 160)); y = 2*np.pi*C_NMPS/wl - 2*np.pi*C_NMPS/835.0
    D = -2*np.pi*C_NMPS/wl**2*sum(x*1e-3*y**k/math.factorial(k) for k, x in enumerate(b))*1e3
    t = FiberInstance(); t.generate_fiber(.15, 835., b, .11)
    t.poly_order = 8; t.set_dispersion_function(lambda z: (wl, D), 'D')
    for x in (f, g, t):
        y = x.get_betas(p); d = y - want
        slope = (want[129] - want[127])/(v[129] - v[127])
        tol = 1e-9 if x is not t else 1e-6
        if np.max(np.abs(d)) > tol*np.max(np.abs(want)) and np.max(np.abs(d + slope*v)) > tol*np.max(np.abs(want)): raise Mismatch('the dispersion of the shipped fibre differs by %r' % np.max(np.abs(d)))
        if abs(x.get_gamma() - .11) > 1e-12 or x.length != .15: raise Mismatch('the shipped fibre has gamma %r, length %r' % (x.get_gamma(), x.length))
        c.steps += 1

class Env: pass
def replay(c, tr, seed, tmp):
    from pynlo.media.fibers.fiber import FiberInstance
    r = random.Random(seed); e = Env()
    lam0 = r.uniform(600, 2000); F0 = 2*np.pi*C_NMPS/lam0; h0 = F0*10**r.uniform(-3.5, -2.7); B = 10**r.uniform(-1, 2)
    hasn = any(h.get('fmt') == 'n' or h.get('f', {}).get('fmt') == 'n' for h in tr['h'])
    if hasn: B = 10**r.uniform(1, 3)
    gu = 10**r.uniform(-4, 0); zu = 10**r.uniform(-3, 1)
    given = []                   # caller's data, which must stay as it was
    def keep(x): given.append((x, [float(v) for v in np.ravel(np.array(x, float))])); return x
    bphys = lambda b: [b[k]*B/h0**(k + 2) for k in range(3)]
    bat = lambda f, z: [f['b'][k] + f['d'][k]*z for k in range(3)]
    wlof = lambda x: 2*np.pi*C_NMPS/(F0 + np.asarray(x)*h0)
    nodes = np.array(sorted(r.uniform(-50, 50) for _ in range(r.choice([25, 40]))))
    def dtab(f, z):
        b = bat(f, z); y = nodes - f['r']
        b2 = B/h0**2*(b[0] + b[1]*y + b[2]*y**2/2)
        w = wlof(nodes)
        return w[::-1].copy(), (-2*np.pi*C_NMPS/w**2*b2*1e3)[::-1].copy()
    nn = np.linspace(-50, 50, r.choice([40, 90]))
    n0 = r.choice([1.45, 1.45, 1.0, .97, 2.2, 3.4])           # index and group index at the origin
    b0, b1 = F0*1e12/299792458.0*n0, F0*1e12/299792458.0*(n0 + r.choice([.05, -.02, .4]))*h0/F0
    def ntab(f, z):
        b = bat(f, z); y = nn - f['r']
        beta = b0 + b1*nn + B*(b[0]*y**2/2 + b[1]*y**3/6)
        return wlof(nn)[::-1].copy(), (beta*299792458.0/((F0 + nn*h0)*1e12))[::-1].copy()
    L = r.uniform(.1, 10)
    def describe(x, f):
        """Give the object x (None: a new one) the description f."""
        fmt = f['fmt']; new = x is None
        order = r.choice([2, 3, 4])
        if fmt in ('db', 'dbkm', 'dbD'):
            spec = dict(gamma=f['g']*gu, is_gain=False, name='t')
            if fmt == 'dbD':
                w, y = dtab(f, 0)
                spec.update(dispersion_format='D', dispersion_x_units='nm', dispersion_y_units='ps/nm/km', dispersion_x_data=list(w), dispersion_y_data=list(y))
            else:
                spec.update(dispersion_format='GVD', dispersion_gvd_units='ps^n/m' if fmt == 'db' else 'ps^n/km', dispersion_gvd_center_wavelength=float(wlof(f['r'])),
                            dispersion_data=[float(v)*(1 if fmt == 'db' else 1e3) for v in bphys(f['b'])])
            name = 'db%d' % r.randrange(10**9)
            with open(os.path.join(tmp, name + '.txt'), 'w') as fh: json.dump({'t': spec}, fh)
            if new: x = FiberInstance(fiber_db=name, fiber_db_dir=tmp)
            else:
                from pynlo.media.fibers.JSONFiberLoader import JSONFiberLoader
                x.fiberloader = JSONFiberLoader(name, tmp)
            x.load_from_db(L, 't', poly_order=order)
            return x
        if new: x = FiberInstance()
        if fmt in ('m', 'km'):
            k = 1 if fmt == 'm' else 1e3
            b = r.choice([tuple, list, np.array])([v*k for v in bphys(f['b'])])
            mine = not isinstance(b, tuple) and r.random() < .4      # the caller goes on using its own list
            if not mine: keep(b)
            x.generate_fiber(L, float(wlof(f['r'])), b, f['g']*gu, gvd_units='ps^n/m' if fmt == 'm' else 'ps^n/km')
            if mine:
                for q in range(3): b[q] = 7e77
        elif fmt in ('D', 'file'):
            w, y = dtab(f, 0)
            if r.random() < .5: w, y = w[::-1].copy(), y[::-1].copy()
            path = os.path.join(tmp, 'd%d.csv' % r.randrange(10**9))
            head = r.choice([0, 1]); sep = r.choice([',', ';'])
            with open(path, 'w') as fh:
                if head: fh.write('wavelength and dispersion\n')
                for a, b in zip(w, y): fh.write('%.15e%s%.15e\n' % (a, sep, b))
            x.load_from_file(path, L, gamma_W_m=f['g']*gu, delimiter=sep, skiprows=head, poly_order=order)
        elif fmt == 'n':
            x.generate_fiber(L, float(wlof(f['r'])), (0.0,), f['g']*gu)
            if r.random() < .5:
                t = ntab(f, 0); keep(t[0]); keep(t[1])
                x.x, x.y = t; x.fiberspecs['dispersion_format'] = 'n'
            else:
                t = ntab(f, 0); keep(t[0]); keep(t[1])
                x.set_dispersion_function(lambda z: t, 'n')
        return x
    fibs, pulses, desc = [], [], []
    for k, h in enumerate(tr['h']):
        where = 'step %d (%s)' % (k, h['op'])
        if h['op'] == 'fibre': desc.append(h['f'])
        elif 'f' in h: desc[h['i']-1] = h['f']
        if h['op'] == 'fibre': fibs.append(describe(None, h['f']))
        elif h['op'] == 'again': describe(fibs[h['i']-1], h['f'])
        elif h['op'] == 'vary':
            f = h['f']; cache = {}
            def fn(z, f=f, fmt=h['fmt'], cache=cache):
                q = round(z/zu, 9)
                if q not in cache:
                    v = (lambda t: (t[0], t[1]))(dtab(f, q)) if fmt == 'D' else ntab(f, q) if fmt == 'n' else bphys(bat(f, q))
                    if fmt == 'GVD': keep(v)
                    else: keep(v[0]); keep(v[1])
                    cache[q] = v
                return cache[q]
            fibs[h['i']-1].set_dispersion_function(fn, h['fmt'])
        elif h['op'] == 'varyg':
            f = h['f']; fibs[h['i']-1].set_gamma_function(lambda z, f=f: (f['g'] + f['dg']*z/zu)*gu)
        elif h['op'] == 'pulse':
            q = h['p']; p = F.pulse(2*q['half'], 2*np.pi/(q['s']*h0), float(wlof(q['m'])), AT=np.ones(2*q['half']))
            pulses.append((p, q, np.array(p.AT)))
        elif h['op'] == 'fit':
            from pynlo.media.fibers.calculators import DTabulationToBetas
            f = desc[h['i']-1]; q = pulses[h['j']-1][1]; w, y = dtab(f, 0); order = r.choice([2, 2, 3, 5])
            few = np.arange(len(w)) if r.random() < .6 else np.unique(np.round(np.linspace(0, len(w) - 1, order + 1 + r.choice([0, 0, 1, 2]))).astype(int))     # few points: an interpolation
            w, y = w[few], y[few]
            isfile = r.random() < .5
            if isfile:
                data = os.path.join(tmp, 'fit%d.csv' % r.randrange(10**9))
                with open(data, 'w') as fh:
                    fh.write('wavelength nm, D\n'); fh.writelines('%.16e, %.16e\n' % t for t in zip(w, y))
            else: data = keep(r.choice([np.array, list, lambda t: tuple(map(tuple, t))])([[a, b] for a, b in zip(w, y)]))
            diag = r.random() < .5
            got = DTabulationToBetas(float(wlof(q['m'])), data, order, **(dict(DDataIsFile=isfile) if not isfile or r.random() < .5 else {}), **(dict(return_diagnostics=True) if diag else {}))
            if diag:
                got, om, b2, fit = got
                bb = f['b']; X = nodes[::-1][few] - f['r'] ; exact = B/h0**2*(bb[0] + bb[1]*X + bb[2]*X**2/2); sc = B/h0**2*(1 + np.max(np.abs(X))**2*max(map(abs, bb)))
                om0 = (nodes[::-1][few] - q['m'])*h0
                if np.shape(om) != om0.shape: raise Mismatch('%s: %d points of %d' % (where, len(om), len(om0)))
                if np.max(np.abs(om - om0)) > 1e-9*F0 or np.max(np.abs(b2 - exact)) > 1e-8*sc or np.max(np.abs(fit - exact)) > 1e-7*sc: raise Mismatch('%s: diagnostics of the fit' % where)
            want = [h['v'][0]/2, h['v'][1], h['v'][2]] + [0]*(order - 2)
            if len(got) != order + 1: raise Mismatch('%s: %d coefficients of an order %d fit' % (where, len(got), order))
            for k2 in range(order + 1):
                sc = B/h0**(k2 + 2)*(1 + 3600*max(map(abs, f['b'])))/(1 if k2 < 3 else 30)
                if not abs(got[k2] - want[k2]*B/h0**(k2 + 2)) <= 1e-6*sc: raise Mismatch('%s: beta%d is %r, specification %r' % (where, k2 + 2, got[k2], want[k2]*B/h0**(k2 + 2)))
            c.steps += 1
        elif h['op'] == 'gamma':
            x = fibs[h['i']-1]; got = x.get_gamma(h['z']*zu) if h['z'] or r.random() < .5 else x.get_gamma()
            if abs(got - h["v"]*gu) > 1e-12*gu*(10 + abs(h["v"])): raise Mismatch('%s: gamma %r, specification %r' % (where, got, h['v']*gu))
            c.steps += 1
        else:
            x = fibs[h['i']-1]; p, q, at = pulses[h['j']-1]
            f = desc[h['i']-1]
            fmts = [g['fmt'] for g in tr['h'][:k] if g['op'] == 'vary' and g['i'] == h['i']]
            fmt = fmts[-1] if fmts else f['fmt']           # the format in force
            J = np.arange(2*q['half']) - q['half']; v = np.array(h['v'], float)
            bb = bat(f, h['z']); X = np.max(np.abs(q['m'] + q['s']*J - f['r'])) + 1
            scale = B/24*(12*abs(bb[0])*X**2 + 4*abs(bb[1])*X**3 + abs(bb[2])*X**4 + 1)
            tol = scale*(1e-7 if fmt in ('D', 'file', 'dbD') else 1e-10) + (b0*1e-13 if fmt == 'n' else 0)
            if h['op'] == 'betas':
                got = x.get_betas(p, h['z']*zu) if h['z'] or r.random() < .5 else x.get_betas(p)
                want = B/24*v; other = want - B/48*h['slope2']*J         # tangent taken on the grid
                if np.shape(got) != v.shape: raise Mismatch('%s: shape %s' % (where, np.shape(got)))
                err = np.max(np.abs(got - want)) if fmt in ('D', 'file', 'dbD') else min(np.max(np.abs(got - want)), np.max(np.abs(got - other)))
            else:
                hh = q['s']*h0; want = B/24*v/hh**2; tol = tol*8/hh**2
                got = x.Beta2(p) if h['op'] == 'beta2' else x.Beta2_to_D(p)
                if h['op'] == 'D':
                    k_ = -2*np.pi*C_NMPS/(2*np.pi*C_NMPS/(F0 + (q['m'] + q['s']*J)*h0))**2*1e3; want = want*k_; tol = tol*np.max(np.abs(k_))
                err = np.max(np.abs(got - want))
            if not err <= tol: raise Mismatch('%s: fibre %d (%s) on pulse %d: off by %.2e (scale %.2e), specification %s, got %s' % (where, h['i'], fmt, h['j'], err, scale, want[:4], got[:4]))
            if r.random() < .3: got[:] = 7e77                     # what was returned belongs to the caller
            if not np.array_equal(p.AT, at): raise Mismatch('%s: the pulse changed' % where)
            c.steps += 1
    for x, v in given:
        if not np.array_equal(np.ravel(np.array(x, float)), v): raise Mismatch('data given by the caller was modified')
