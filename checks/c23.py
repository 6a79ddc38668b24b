"""C23: gain of fibres."""
import json, math, os, random, shutil, tempfile
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X
C = 299792458.0
def run(c):
    r = random.Random(c.seed*227)
    q = c.scale(1, 10)
    jobs = [(('Gain', dict(DEPTH=c.scale(3, 4), SIM=False, HALF=2)), dict(invariants=['Unique', 'Finer'], view='View', workers=4))]
    for k in range(3):
        jobs.append((('Gain', dict(DEPTH=6 + 7*k, SIM=True, HALF=2)), dict(invariants=['Emit', 'Unique', 'Finer'], simulate=90*q, depth=40, seed=c.seed*43 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = list({json.dumps(l): l for x in rs[1:] for l in x.lines}.values()); r.shuffle(ls)
    d = tempfile.mkdtemp(prefix='c23_')
    try:
        for t in ls[:c.scale(150, 2500)]:
            c.replay(t, lambda t: replay(c, t, r.random(), d), label='history')
            if len(c.violations) >= 5: return
    finally: shutil.rmtree(d, ignore_errors=True)

def poly(k, x): return k[0] + k[1]*x + k[2]*x*x + k[3]*x**3
def power(p): return p.calc_epp()*p.frep_mks
def replay(c, tr, seed, tmp):
    from pynlo.media.fibers.fiber import FiberInstance
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    r = random.Random(seed)
    f0 = r.uniform(100, 500); h0 = f0*r.uniform(.0005, .01)              # THz: centre and unit of frequency
    L = 10**r.uniform(-2, 1); amp = 10**r.uniform(-4, 1.5)
    gu = r.choice([.5/L, 1/L])
    fs, ps = [], []
    def describe(x, how, f):
        wl = X.C_NMPS/f0
        if how in ('db', 'dbnone'):
            spec = dict(gamma=0.0, is_gain=how == 'db', name='t', dispersion_format='GVD', dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=wl, dispersion_data=[0.0, 0.0])
            if how == 'db':
                xs = np.linspace(f['lo'], f['hi'], f['n'] + 1); u = 10**r.uniform(-2, 1)/L/np.max(poly(f['c'], xs))
                spec.update(gain_x_units='m', gain_x_data=[float(v) for v in (C/((f0 + h0*xs)*1e12))[::-1]], gain_y_data=[float(v) for v in (u*poly(f['c'], xs))[::-1]])
            name = 'g%d' % r.randrange(10**9)
            with open(os.path.join(tmp, name + '.txt'), 'w') as fh: json.dump({'t': spec}, fh)
            if x is None: x = FiberInstance(fiber_db=name, fiber_db_dir=tmp)
            else:
                from pynlo.media.fibers.JSONFiberLoader import JSONFiberLoader
                x.fiberloader = JSONFiberLoader(name, tmp)
            x.load_from_db(L, 't')
            return x
        if x is None: x = FiberInstance()
        if how == 'gen': x.generate_fiber(L, wl, (0.0, 0.0), 0.0, gain=f['g']*gu)
        else:
            path = os.path.join(tmp, 'd%d.csv' % r.randrange(10**9))
            with open(path, 'w') as fh:
                for k in range(12): fh.write('%.10f,0.0\n' % (wl*(.5 + k/10.)))
            x.load_from_file(path, L, gain=f['g']*gu)
        return x
    def close(a, b, tol): return np.all(np.abs(np.asarray(a) - b) <= tol)
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s): ' % (t + 1, op)
        if op == 'fibre': fs.append(describe(None, s['how'], s['f'])); continue
        if op == 'again': describe(fs[s['i'] - 1], s['how'], s['f']); continue
        if op == 'pulse':
            q = s['p']; N = 2*q['half']
            p = X.pulse_on((N, 1/(q['s']*h0), X.C_NMPS/(f0 + q['m']*h0)), None); p.set_frep_MHz(50.*q['frep'])
            p.set_AW(amp*np.array([r.uniform(.2, 2)*np.exp(2j*math.pi*r.random()) for _ in range(N)])); ps.append((p, np.array(p.AT), np.array(p.AW))); continue
        f = fs[s['i'] - 1]; p, at, aw = ps[s['j'] - 1]; v = np.array(s['v'], float)
        P = s['r'][0]/float(s['r'][1])*power(p); specs = json.dumps(f.fiberspecs, default=repr, sort_keys=True)
        def monotone():
            """With very few bins the trapezoidal power is not monotone in the factor (its edge terms mix bins): then no claim."""
            out = []
            for k in np.linspace(-30, 30, 241):
                z = aw*np.exp(k*v/max(v.max(), 1)/2); a = np.abs(np.fft.ifft(np.fft.ifftshift(z)))**2
                a = np.fft.fftshift(a); out.append(np.trapz(a))
                b = np.fft.fftshift(np.abs(np.fft.fft(np.fft.ifftshift(z)))**2); out[-1] = (out[-1], np.trapz(b))
            o = np.array(out); return np.all(np.diff(o[:, 0]) > -1e-12*o[:-1, 0]) and np.all(np.diff(o[:, 1]) > -1e-12*o[:-1, 1])
        if s.get('fit') or op == 'goal':
            if not monotone(): c.notes['not_monotone'] = c.notes.get('not_monotone', 0) + 1; continue
        def fitted(k, why):
            """k is the spectrum times one factor, with which the pulse leaves with power P"""
            i = np.argmax(v); u = k[i]/v[i]
            if k.shape != v.shape or not close(k, u*v, 1e-7*abs(u)*v.max() + 1e-9/L): raise Mismatch(what + 'gain %r is not one factor times the spectrum %r%s' % (k.tolist(), v.tolist(), why))
            z = p.create_cloned_pulse(); z.set_AW(aw*np.exp(k*L/2))
            if not abs(power(z)/P - 1) < 1e-4: raise Mismatch(what + 'with the gain %r the pulse leaves with %.7g of the requested power%s' % (k.tolist(), power(z)/P, why))
        if op == 'gain':
            k = f.get_gain(p, P) if s['fit'] or r.random() < .5 else f.get_gain(p)
            k = np.asarray(k)
            if s['fit']: fitted(k, '')
            elif k.shape != v.shape or not close(k, v*gu, 1e-12*gu*(1 + np.abs(v).max())): raise Mismatch(what + 'gain %r, not %r' % (k.tolist(), (v*gu).tolist()))
            if r.random() < .5: k[...] = 9e99
        elif op == 'through':
            n = r.choice([1, 2])
            S = SSFM(local_error=1e-6, USE_SIMPLE_RAMAN=True, suppress_iteration=True, disable_Raman=r.random() < .5)
            z, AW, AT, out = S.propagate(p, f, n, output_power=P if s['fit'] or r.random() < .5 else None)
            a = np.abs(out.AW)
            if s['fit']: fitted(2*np.log(a/np.abs(aw))/L*np.where(v == 0, 0, 1), ' (as seen after propagation)')
            g = np.where(v > 0, 2*np.log(a/np.abs(aw))/L, 0) if s['fit'] else v*gu
            if not np.allclose(a, np.abs(aw)*np.exp(g*L/2), rtol=1e-6): raise Mismatch(what + 'spectral magnitudes grew by %r, not %r' % ((a/np.abs(aw)).tolist(), np.exp(g*L/2).tolist()))
            if out.frep_mks != p.frep_mks: raise Mismatch(what + 'repetition rate changed')
        else:
            tol = s['tol']/1000.; phi = 10**r.uniform(-2, .6)
            f.gamma = phi/L/np.max(np.abs(at))**2
            guess = {'none': None, 'low': .9, 'high': 1.1, 'much': 2.}[s['guess']]
            S = SSFM(local_error=tol*1e-3, USE_SIMPLE_RAMAN=True, disable_Raman=True, disable_self_steepening=True, suppress_iteration=True)
            kw = {} if guess is None else dict(scalefactor_guess=guess)
            (z, AW, AT, out), sc = S.propagate_to_gain_goal(p, f, s['n'], power_goal=P, powertol=tol, **kw)
            N = p.NPTS
            if np.shape(AW) != (N, s['n']) or np.shape(AT) != (N, s['n']) or not np.allclose(z, np.linspace(0, L, s['n'] + 1)): raise Mismatch(what + 'the propagation returned is not one of %d steps' % s['n'])
            if not abs(power(out)/P - 1) <= tol*1.05: raise Mismatch(what + 'output power is %.7g of the goal, tolerance %g' % (power(out)/P, tol))
            o2 = SSFM(local_error=tol*1e-3, USE_SIMPLE_RAMAN=True, disable_Raman=True, disable_self_steepening=True, suppress_iteration=True).propagate(p, f, s['n'], output_power=P*sc)[3]
            if not abs(power(o2)/power(out) - 1) < .1*tol: raise Mismatch(what + 'the scale factor %r returned gives %.7g of the power of the propagation returned' % (sc, power(o2)/power(out)))
            c.notes['largest_scale_factor_offset'] = max(c.notes.get('largest_scale_factor_offset', 0), round(abs(sc - 1)/tol, 1))
            if r.random() < .5:        # started from the factor just found
                (z, AW, AT, o3), s3 = S.propagate_to_gain_goal(p, f, r.choice([1, 2]), power_goal=P, powertol=tol, scalefactor_guess=sc)
                if not abs(power(o3)/P - 1) <= tol*1.05: raise Mismatch(what + 'started from the factor %r found before, the output power is %.7g of the goal, tolerance %g' % (sc, power(o3)/P, tol))
            f.gamma = 0.0
        if not np.array_equal(p.AT, at) or not np.array_equal(p.AW, aw): raise Mismatch(what + 'the pulse changed')
        if json.dumps(f.fiberspecs, default=repr, sort_keys=True) != specs: raise Mismatch(what + 'the description of the fibre changed')
