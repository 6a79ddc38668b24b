"""C21: the Treacy grating compressor."""
import json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X
C = 299792458.0
def run(c):
    r = random.Random(c.seed*211)
    q = c.scale(1, 10)
    jobs = [(('Compressor', dict(DEPTH=0, SIM=False, PR=30011, NMAX=4)), dict(invariants=['Identities']))]
    jobs.append((('Compressor', dict(DEPTH=0, SIM=False, PR=32749, NMAX=c.scale(4, 6))), dict(invariants=['Identities'])))
    for k in range(3):
        jobs.append((('Compressor', dict(DEPTH=5 + 6*k, SIM=True, PR=30011, NMAX=4)), dict(invariants=['Emit', 'Undo'], simulate=100*q, depth=30, seed=c.seed*37 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = list({json.dumps(l): l for x in rs[2:] for l in x.lines}.values()); r.shuffle(ls)
    for t in ls[:c.scale(350, 3500)]:
        c.replay(t, lambda t: replay(c, t, r.random()), label='history')
        if len(c.violations) >= 5: return

def value(terms, s, sg):
    u = s - sg; cc = np.sqrt(1 - u*u); cg = math.sqrt(1 - sg*sg)
    return sum(k*s**float(e[0])*u**float(e[1])*cc**float(-e[2])*sg**float(e[3])*cg**float(e[4]) for e, k in terms)
def size(terms, s, sg):
    u = abs(s - sg); cc = np.sqrt(1 - u*u); cg = math.sqrt(1 - sg*sg)
    return sum(abs(k)*s**float(e[0])*u**float(e[1])*cc**float(-e[2])*abs(sg)**float(e[3])*cg**float(e[4]) for e, k in terms)

def replay(c, tr, seed):
    from pynlo.devices.grating_compressor import TreacyCompressor
    r = random.Random(seed)
    d0 = 10**r.uniform(-6.2, -4.8)                 # metres
    unit = 10**r.uniform(-4, -1)                   # separation, metres
    gs, ps = [], []
    def near(got, want, tol, what):
        g = np.asarray(got, float)
        if not np.all(np.abs(g - want) <= tol): raise Mismatch('%s is %r, not %r' % (what, g.tolist(), np.asarray(want).tolist()))
    for t, st in enumerate(tr['h']):
        c.steps += 1; op = st['op']; what = 'step %d (%s): ' % (t + 1, op)
        if op == 'grating':
            sg = st['sg']/12.0; d = d0/st['m']
            gs.append((TreacyCompressor(1e-3/d, math.degrees(math.asin(sg))), sg, d))
        elif op == 'pulse':
            lam = st['s']/12.0*d0; N = r.choice([4, 6, 8, 12])
            f0 = C/lam; w = N/(f0*r.uniform(.02, .14))*1e12          # ps
            A = np.array([r.uniform(.2, 2)*np.exp(2j*math.pi*r.random()) for _ in range(N)])*10**r.uniform(-6, 3)
            p = X.pulse_on((N, w, lam*1e9), r); p.set_AW(A)
            ps.append([p, lam, np.array(p.AW), np.zeros(3), []])
        elif op == 'apply':
            p, lam, A0, _, _ = ps[st['p'] - 1]; g, sg, d = gs[st['g'] - 1]
            grid = (p.NPTS, p.time_window_ps, p.center_wavelength_nm, p.frep_mks)
            if r.random() < .3: g.calc_theta(r.uniform(.5, 1.5)*lam*1e9)
            W0 = np.array(p.W_mks)
            g.apply_phase_to_pulse(st['sep']*unit, p)
            if (p.NPTS, p.time_window_ps, p.center_wavelength_nm, p.frep_mks) != grid or not np.array_equal(p.W_mks, W0): raise Mismatch(what + 'the grid of the pulse changed')
            A = np.array(p.AW)
            if not np.allclose(np.abs(A), np.abs(A0), rtol=1e-9*len(tr['h']), atol=0): raise Mismatch(what + 'spectral magnitudes changed from %r to %r' % (np.abs(A0).tolist(), np.abs(A).tolist()))
            # the phase of everything applied so far
            ps[st['p'] - 1][4].append((st['g'], st['sep']))
            s_ = C/(np.array(p.W_mks)/(2*math.pi))
            phi = np.zeros(p.NPTS); big = 0.
            for gi in (1, 2, 3):
                if st['total'][gi - 1] == 0: continue
                _, sgi, di = gs[gi - 1]
                phi += 2*st['total'][gi - 1]*unit*2*math.pi/di*value(st['terms'], s_/di, sgi)
            for gi, k in ps[st['p'] - 1][4]:
                _, sgi, di = gs[gi - 1]; sc = (lam/di)
                big += abs(k)*unit*2*math.pi/di*size(st['terms'], sc, sgi)*8
            rat = A/A0*np.exp(-1j*phi); q = rat[1:]*np.conj(rat[:-1]); q /= np.abs(q)
            e = np.abs(np.angle(q*np.conj(q[0])))
            if np.any(e > 1e-6 + 3e-9*big): raise Mismatch(what + 'the phase applied is not that of the gratings (beyond a constant and a delay): second differences off by up to %g rad' % e.max())
        elif op == 'theta':
            g, sg, d = gs[st['g'] - 1]; lam = st['s']/12.0*d
            near(g.calc_theta(lam*1e9, display_angle=r.random() < .3), math.asin(sg) - math.asin(st['u']/12.0), 1e-6, what + 'angle between the beams')
            if st['s'] >= 2:                       # several colours at once, the caller's array untouched
                ls = np.array([lam, d/12.0, lam*.9])*1e9; was = ls.copy(); got = g.calc_theta(ls)
                if not np.array_equal(ls, was): raise Mismatch(what + 'the wavelengths given were changed')
                near(got, math.asin(sg) - np.arcsin(np.clip(ls*1e-9/d - sg, -1, 1)), 1e-6, what + 'angles of an array of colours')
        elif op == 'bad':
            g, sg, d = gs[st['g'] - 1]
            for f, bad in ((g.calc_compressor_HOD, st['hod']), (g.calc_compressor_dnphi_domega_n, st['dn'])):
                if not bad: continue
                try: f(1000., .01, st['n'])
                except ValueError: continue
                raise Mismatch(what + 'order %d was accepted' % st['n'])
        elif op == 'beyond':
            g, sg, d = gs[st['g'] - 1]; lam = st['s']/12.0*d
            if st['s'] < 1 or r.random() < .6: continue
            N = 4; f0 = C/lam; w = N/(f0*.3)*1e12
            A = np.array([r.uniform(.2, 2)*np.exp(2j*math.pi*r.random()) for _ in range(N)])
            p = X.pulse_on((N, w, lam*1e9*.99), r); p.set_AW(A); A0 = np.array(p.AW)
            g.apply_phase_to_pulse(unit, p)
            if not np.allclose(np.abs(p.AW), np.abs(A0), rtol=1e-9, atol=0): raise Mismatch(what + 'spectral magnitudes changed from %r to %r' % (np.abs(A0).tolist(), np.abs(p.AW).tolist()))
        else:
            g, sg, d = gs[st['g'] - 1]; s = st['s']/12.0; lam = s*d; sep = st['sep']*unit; n = st['n']
            W = 2*math.pi*C/d; v = value(st['terms'], s, sg)
            if op == 'tau':
                want = sep/C*v; near(g.calc_dphi_domega(W/s, sep), want, 1e-9*abs(sep)/C*size(st['terms'], s, sg), what + 'group delay of one pass')
            elif op == 'slope':
                want = sep/(C*W)*v; near(g.calc_dt_dw_singlepass(lam*1e9, sep, verbose=r.random() < .3), want, 1e-9*abs(want), what + 'slope of the group delay')
            elif op == 'gdd':
                want = 2*sep/(C*W)*v; near(g.calc_compressor_gdd(lam*1e9, sep), want, 1e-9*abs(want), what + 'group-delay dispersion')
            elif op == 'hod':
                # step of the numerical derivative against the distance to the nearest singular colour
                want = 2*sep/(C*W**(n - 1))*v
                scale = 2*abs(sep)/(C*W**(n - 1))*size(st['terms'], s, sg)
                base = abs(g.calc_compressor_gdd(lam*1e9, sep))*2.2e-16/(2*math.pi*1e11)**(n - 2)
                if reach(s, st['u']/12., W)[0]*.1 < 1e12*2*math.pi: c.notes['skipped'] = c.notes.get('skipped', 0) + 1; continue
                near(g.calc_compressor_HOD(lam*1e9, sep, n), want, 2e-3*scale + 1e3*base, what + 'dispersion of order %d' % n)
            elif op == 'dn':
                want = sep/(C*W**n)*v*1e15**(n + 1)
                scale = abs(sep)/(C*W**n)*size(st['terms'], s, sg)*1e15**(n + 1)
                base = abs(sep)/C*4*2.2e-16/(1e12)**n*1e15**(n + 1)
                if reach(s, st['u']/12., W)[0]*.1 < 50e12: c.notes['skipped'] = c.notes.get('skipped', 0) + 1; continue
                near(g.calc_compressor_dnphi_domega_n(lam*1e9, sep, n), want, 2e-3*scale + 1e3*base, what + 'derivative %d of the group delay' % n)

def reach(s, u, W):
    """distance in angular frequency from a colour to the nearest that cannot be diffracted, or to zero"""
    w = W/s; out = [w]
    for lim in (1, -1):
        sl = s - u + lim
        if sl > 0: out.append(abs(W/sl - w))
    return [min(out)]
