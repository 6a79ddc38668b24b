"""Replays histories of spec/PulseLattice.tla on real Pulse objects (properties C01..C06, C20)."""
import copy, json, math, os, random, shutil, tempfile
import numpy as np
from vlib.check import Mismatch
from vlib import tlc

C_MKS = 299792458.0
C_NMPS = C_MKS * 1e-3

ALL = ['new','readblank','drop','setN','setT','setC','setFr','mutate','putAW','putAT','scaleAT','chirpW','chirpT',
       'phaseW','offset','expand','badexpand','rotate','filter','subset','badsubset','interp','clone','create',
       'export','import','frog','frogfine','setepp']

LIFT = ['new','drop','setT','setC','setFr','mutate','putAW','scaleAT','chirpW','phaseW','offset','filter','subset','badexpand','clone','create','export','import','avg']
GRIDS = ['W_THz','W_mks','F_THz','F_mks','wl_nm','wl_mks','V_THz','V_mks','T_ps','T_mks']
SCALARS = ['dT_ps','dT_mks','dF_THz','dF_mks','time_window_ps','time_window_mks','center_wavelength_nm',
           'center_wavelength_mks','center_frequency_THz','center_frequency_mks','NPTS','frep_MHz','frep_mks']

def jobs(ops, num, depth, seed, P=3, Ms=(16, 24, 40), TS=(1,2,3,4,6), CS=None, NS=None, views=('AT','epp')):
    """One simulation run of PulseLattice per transform size family."""
    grid = {16: {4,8,16}, 24: {4,6,8,12}, 40: {4,8,10}}
    out = []
    for i, m in enumerate(Ms):
        cs = CS or {240*k for k in (9,10,13,24,60)} | {240*11 + 7, 240*20 + 61, 240*11 + 120, 240*13 + 80, 240*20 + 60}
        out.append((('PulseLattice', dict(M=m, P=P, NS={x for x in (NS or grid[m]) if m % x == 0 or max(NS or grid[m]) > 16}, TS=set(TS), CS=cs, OPS=set(ops), DEPTH=depth, SIM=True, VIEWS=set(views))),
                    dict(invariants=['Emit'], simulate=num, depth=4*depth, seed=seed*101 + i, heap='1500m', timeout=800)))
    return out

def ring(c, m):
    c = np.asarray(c, dtype=float)
    return c @ np.exp(2j*np.pi*np.arange(m//2)/m)

class World:
    """The concrete values behind the lattice of one history."""
    def __init__(self, tr, seed):
        self.r = r = random.Random(seed)
        self.m, self.L = tr['m'], tr['L']; self.big = 0.0; self.ph = 0.0
        lo = .03 if any(x['op'] in ('frog', 'frogfine') for x in tr['h']) else -2.0     # files are read for windows above a picosecond only
        self.tau = r.choice([2.0, 10.0, 5.0, 1.1]) if r.random() < .4 else 10**r.uniform(lo, 1.3)
        self.amp = 1.0 if r.random() < .3 else 10**r.uniform(-5, 4)
        self.freps = [100.0, 10**r.uniform(-3, 4), 10**r.uniform(-1, 3)]
        self.expo = np.exp(2j*np.pi*np.arange(self.m//2)/self.m)
    def thz(self, c): return c/(self.L*self.tau)
    def nm(self, c): return C_NMPS/self.thz(c)
    def fr(self, i): return self.freps[i-1] if i else None          # 0: not set

def expected(w, v):
    """name -> expected value of every public view of one slot."""
    n, t, c = v['n'], v['t'], v['c']
    if v.get('K', 1) > 1: return lifted(w, v)
    F = np.array(v['W'], float)/(w.L*w.tau); V = 2*np.pi*np.array(v['V'], float)/(w.L*w.tau)
    T = np.array(v['T'], float)*w.tau/(2*n)
    e = dict(W_THz=2*np.pi*F, W_mks=2*np.pi*F*1e12, F_THz=F, F_mks=F*1e12, wl_nm=C_NMPS/F, wl_mks=C_MKS/(F*1e12),
             V_THz=V, V_mks=V*1e12, T_ps=T, T_mks=T*1e-12,
             dT_ps=t*w.tau/n, dT_mks=t*w.tau/n*1e-12, dF_THz=1/(t*w.tau), dF_mks=1e12/(t*w.tau),
             time_window_ps=t*w.tau, time_window_mks=t*w.tau*1e-12,
             center_wavelength_nm=w.nm(c), center_wavelength_mks=w.nm(c)*1e-9,
             center_frequency_THz=w.thz(c), center_frequency_mks=w.thz(c)*1e12,
             NPTS=n, frep_MHz=w.fr(v['fr']), frep_mks=w.fr(v['fr'])*1e6 if v['fr'] else None)
    if v['st'] == 'field':
        den = 2.0**v['d']*v['o']
        e['AW'] = (np.array(v['AW'], float) @ w.expo)*w.amp/den
        if 'AT' in v: e['AT'] = (np.array(v['AT'], float) @ w.expo)*w.amp/den
        elif n > 16: e['AT'] = np.exp(-2j*np.pi*np.mod(np.outer(np.arange(n) - n//2, np.arange(n) - n//2), n)/n)@e['AW']
        if 'epp' in v:
            u = (w.amp/den)**2*t*w.tau/n*1e-12
            e['epp'] = ((np.array(v['epp'], float) @ w.expo).real/2)*u
            e['epp rounding'] = 1e-14*float(np.sum(np.abs(v['epp'])))*u     # the terms of the exact value may cancel
    return e

def lifted(w, v):
    """The same pulse on a grid with K times as many bins of the same spacing: the field has nothing in the new bins,
    the time samples lie K times closer."""
    n, t, c, K = v['n'], v['t'], v['c'], v['K']; N = n*K; bt = t*w.tau
    e = expected(w, dict(v, K=1)); j = np.arange(N) - N//2
    F = w.thz(c) + j/bt; V = 2*np.pi*j/bt; T = j*bt/N
    e.update(W_THz=2*np.pi*F, W_mks=2*np.pi*F*1e12, F_THz=F, F_mks=F*1e12, wl_nm=C_NMPS/F, wl_mks=C_MKS/(F*1e12), V_THz=V, V_mks=V*1e12,
             T_ps=T, T_mks=T*1e-12, dT_ps=bt/N, dT_mks=bt/N*1e-12, NPTS=N)
    e.pop('epp', None); e.pop('epp rounding', None)
    if 'AW' in e:
        small = e['AW']; i = N//2 - n//2
        A = e['AW'] = np.zeros(N, complex); A[i:i+n] = small
        at = e.pop('AT', None)
        k = np.arange(n) - n//2
        e['AT'] = np.exp(-2j*np.pi*np.mod(np.outer(j, k), N)/N)@small
        if at is not None and np.max(abs(e['AT'][::K] - at)) > 1e-9*np.sum(abs(small)): raise RuntimeError('the lifted field does not interpolate the specification')
    return e

def read(p, name):
    return p.calc_epp() if name == 'epp' else getattr(p, name)

def compare(name, got, want, where, tol=1e-9, floor=0.0):
    if want is None or got is None:
        if want is not got: raise Mismatch('%s: %s is %r, expected %r' % (where, name, got, want))
        return
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch('%s: %s has shape %s, expected %s' % (where, name, got.shape, want.shape))
    scale = np.max(np.abs(want)) if want.size else 0.0
    err = np.max(np.abs(got - want)) if want.size else 0.0
    if not (err <= tol*scale + floor + 1e-300):
        k = int(np.argmax(np.abs(got - want).ravel())) if np.all(np.isfinite(got)) else -1
        raise Mismatch('%s: %s wrong: got %s, specification %s (max error %.3g of %.3g at %d)' %
                       (where, name, np.ravel(got)[:6], np.ravel(want)[:6], err, scale, k))

def observe(w, p, v, names, where, count):
    e = expected(w, v)
    for nme in names:
        if nme in e:
            if nme in ('AW', 'AT', 'epp'):     # rounding is relative to the largest field this history has seen
                fl = (1e-11 + 2e-12*v['c']*v['t']/w.L + w.ph)*w.big if nme != 'epp' else 1e-22*w.big**2*e['time_window_mks'] + e['epp rounding']
                compare(nme, read(p, nme), e[nme], where, floor=fl)
            else: compare(nme, read(p, nme), e[nme], where)
            count()

ALLV = GRIDS + SCALARS + ['AW', 'AT', 'epp']

def replay(tr, seed, count, dirpath, only=None, full=False, lift=None):
    """Drive real pulses through one history; raise Mismatch where they leave the specification."""
    from pynlo.light.PulseBase import Pulse
    from pynlo.light import DerivedPulses
    w = World(tr, seed); r = w.r
    h = tr['h']
    P = len(h[0]['post'])
    obj = [None]*P; views = [dict(st='none') for _ in range(P)]
    disk = None; Ks = [1]*P; diskK = 1
    def size(): return r.choice(lift) if lift else 1
    names_pool = only or ALLV
    def build(n, t, c, fr, how):
        if how in (0, 5):
            p = Pulse(frep_MHz=w.fr(fr), n=n)
            if how == 5: p.set_time_window_ps(3.3*t*w.tau); p.set_center_wavelength_nm(777.0); maybe_read(p)
            p.set_center_wavelength_nm(w.nm(c)); p.set_time_window_ps(t*w.tau)
        elif how == 1:
            p = Pulse(n=n); p.set_frep_MHz(w.fr(fr)); p.set_time_window_s(t*w.tau*1e-12); p.set_center_wavelength_m(w.nm(c)*1e-9)
        elif how == 2:
            p = Pulse(frep_MHz=w.fr(fr)); p.set_NPTS(n); p.set_frequency_window_THz(n/(t*w.tau)); p.set_center_wavelength_nm(w.nm(c))
        elif how == 3:
            p = Pulse(frep_MHz=w.fr(fr), n=n); p.set_center_wavelength_m(w.nm(c)*1e-9); p.set_frequency_window_mks(n/(t*w.tau)*1e12)
        else:
            p = Pulse(); p.set_time_window_ps(t*w.tau); p.set_center_wavelength_nm(w.nm(c)); p.set_frep_MHz(w.fr(fr)); p.set_NPTS(n)
        if not fr: p.set_frep_MHz(None)
        return p
    def maybe_read(p):
        for nme in r.sample(GRIDS, 4): read(p, nme)
    for i, s in enumerate(h):
        op, q, a = s['op'], s['p'] - 1, s['a']
        p = obj[q]
        v = views[q]
        post = [x if x['st'] != 'same' else None for x in s['post']]
        new = post[q] if post[q] is not None else v
        where = 'step %d %s(%s) slot %d' % (i, op, str(a)[:80], q + 1)
        n = v.get('n'); t = v.get('t'); bt = (t or 0)*w.tau
        if op in ('init', 'new'): Ks[q] = size(); a = [a[0]*Ks[q]] + list(a[1:])
        elif op in ('clone', 'create'): Ks[q] = Ks[a[0]-1]
        elif op == 'export': diskK = Ks[q]
        elif op == 'import': Ks[q] = diskK
        elif op == 'subset': KS = Ks[a[0]-1]; Ks[q] = 1
        K = Ks[q]
        post = [x if x is None or x['st'] == 'none' else dict(x, K=Ks[k]) for k, x in enumerate(post)]
        if K > 1 and post[q] is None and v['st'] != 'none' and v.get('K') != K: post[q] = dict(v, K=K)
        new = post[q] if post[q] is not None else v
        if op == 'init':
            p = obj[q] = build(*a, how=r.randrange(6))
            want = expected(w, new)
            (p.set_AT(want['AT']) if 'AT' in want and r.random() < .5 else p.set_AW(want['AW']))
        elif op == 'new': obj[q] = build(*a)
        elif op == 'readblank':
            for nme in ('AW', 'AT'):
                try: getattr(Pulse(), nme)
                except Exception: pass
                else: raise Mismatch(where + ': a new pulse already has a field ' + nme)
        elif op == 'drop': obj[q] = None
        elif op == 'setN': p.set_NPTS(a[0])
        elif op == 'setT':
            T = a[0]*w.tau
            if r.random() < .3: p.set_time_window_ps(T*(1 + r.choice([-1, 1])*10**r.uniform(-7, -2))); maybe_read(p)     # almost the same grid just before
            [lambda: p.set_time_window_ps(T), lambda: p.set_time_window_s(T*1e-12),
             lambda: p.set_frequency_window_THz(n*K/T), lambda: p.set_frequency_window_mks(n*K/T*1e12)][a[1]]()
        elif op == 'setC':
            if r.random() < .3: p.set_center_wavelength_nm(w.nm(a[0])*(1 + r.choice([-1, 1])*10**r.uniform(-7, -2))); maybe_read(p)
            (p.set_center_wavelength_nm(w.nm(a[0])) if a[1] == 0 else p.set_center_wavelength_m(w.nm(a[0])*1e-9))
        elif op == 'setFr': p.set_frep_MHz(w.fr(a[0]))
        elif op == 'mutate':
            for nme in r.sample(GRIDS, len(GRIDS)):
                g = read(p, nme)
                if g.flags.writeable: g[...] = r.choice([0.0, -1.0, 7.7e77])
            if v['st'] == 'field':
                for nme in ('AW', 'AT'):
                    g = read(p, nme)
                    if g.flags.writeable: g *= 0; g += 5-3j
        elif op in ('putAW', 'putAT'):
            arr = ring(a, w.m)*w.amp
            keep = arr.copy()
            if K > 1: arr = np.pad(arr, (n*K//2 - n//2, n*K - n*K//2 - (n - n//2))); keep = arr.copy()
            (p.set_AW if op == 'putAW' else p.set_AT)(arr)
            if not np.array_equal(arr, keep): raise Mismatch(where + ': the caller\'s array was modified')
            arr[:] = 99.0                       # the pulse must not alias it
        elif op == 'scaleAT': p.set_AT(p.AT*2.0**a[0])
        elif op == 'chirpW':
            g, hh, qq, rr, wh, y = a
            mm = y*n/2 + abs(rr)        # rounding of the frequencies, times the slope of the phase
            w.ph += 2*np.pi/w.m*((2*abs(g)*mm + 3*abs(hh)*mm**2 + 4*abs(qq)*mm**3)*y*v['c']*v['t']/w.L + abs(g)*mm**2 + abs(hh)*mm**3 + abs(qq)*mm**4)*1e-15
            x = y*bt/(2*np.pi); rr /= y
            gdd, tod, fod = g*y**2*bt**2/(np.pi*w.m), 6*2*np.pi*hh/w.m*x**3, 24*2*np.pi*qq/w.m*x**4
            if wh == 1: p.chirp_pulse_W(gdd, tod, fod, w0_THz=2*np.pi*(w.thz(v['c']) + rr/bt))
            elif r.random() < .5: p.chirp_pulse_W(gdd, tod, fod)
            else: p.chirp_pulse_W(gdd, TOD=tod, FOD=fod)
        elif op == 'chirpT':
            T0 = 10**r.uniform(-2, 1)*r.choice([1, 1, 1, -1]); x = T0*n/bt
            p.chirp_pulse_T(2*2*np.pi*a[0]/w.m*x**2, 3*2*np.pi*a[1]/w.m*x**3, T0)
        elif op == 'phaseW':
            ph = 2*np.pi*np.array(a, float)/w.m + 2*np.pi*np.array([r.randint(-2, 2) for _ in a])
            if K > 1: ph = np.r_[np.full(n*K//2 - n//2, 1.3), ph, np.full(n*K - n*K//2 - (n - n//2), -.4)]
            p.apply_phase_W(ph)
        elif op == 'offset': p.add_time_offset(a[0]*bt/w.m)
        elif op == 'expand':
            if a[1] == 'before' and r.random() < .5: p.expand_time_window(a[0])
            else: p.expand_time_window(a[0], a[1])
        elif op == 'badexpand':
            try: p.expand_time_window(a[0], r.choice(['middle', 'befor', 'both', '']))
            except Exception: pass
            else: raise Mismatch(where + ': bad argument accepted')
        elif op == 'rotate':
            f = w.thz(v['c']) + (a[0] + r.choice([0, 0, .4, -.4, .2]))/bt
            p.rotate_spectrum_to_new_center_wl(C_NMPS/f)
        elif op == 'filter':
            lo, hi = a
            f = lambda k: w.thz(v['c']) + (k - n//2)/bt
            e = r.uniform(.3, .7)
            flo, fhi = f(lo - e), f(hi + e); wl = p.wl_nm       # a limit may be a wavelength of the grid itself, which is kept
            lim = [C_NMPS/fhi, C_NMPS/flo if flo > 0 else 1e99]; i0 = n*K//2 - n//2
            if 0 <= hi + i0 < n*K and r.random() < .3: lim[0] = wl[hi + i0]
            if 0 <= lo + i0 < n*K and r.random() < .3: lim[1] = wl[lo + i0]
            p.filter_by_wavelength_nm(*lim)
        elif op == 'subset':
            src = a[0] - 1; sv = views[src]; sb = sv['t']*w.tau
            f = w.thz(sv['c']) + (a[1] - sv['n']//2 + r.choice([0, 0, .3, -.3]))/sb
            obj[q] = obj[src].create_subset_pulse(C_NMPS/f, a[2])
        elif op == 'badsubset':
            try: p.create_subset_pulse(C_NMPS/(w.thz(v['c']) + (a[1] - n//2 + r.choice([0, 0, .3, -.3]))/bt), a[0])
            except Exception: pass
            else: raise Mismatch(where + ': bad size accepted')
        elif op == 'interp':
            src = a[0] - 1; sv = views[src]; sb = sv['t']*w.tau
            f = w.thz(sv['c']) + (a[1] + a[2]/4.0)/sb
            obj[q] = obj[src].interpolate_to_new_center_wl(C_NMPS/f)
        elif op == 'clone': p.clone_pulse(obj[a[0]-1])
        elif op == 'create': obj[q] = obj[a[0]-1].create_cloned_pulse()
        elif op == 'export':
            disk = p.get_pulse_dict()
            if r.random() < .5: disk = json.loads(json.dumps(disk))
        elif op == 'import':
            d = copy.deepcopy(disk) if r.random() < .7 else disk
            p.load_pulse_dict(d)
            if d is not disk:
                if d != disk: raise Mismatch(where + ': the dictionary was modified by loading it')
                d['AT_re'][0] = 1e9; d['NPTS'] = 2
        elif op == 'frog':
            src, fw, frd = a; o = obj[src-1]; e = expected(w, new)
            path = os.path.join(dirpath, 'frog%d.dat' % os.getpid())
            o.write_frog(path, flip_phase=fw)
            if r.random() < .3:                 # the order of the rows, the unit of the amplitudes and whole turns of the phase say nothing
                d = np.loadtxt(path); d = d[np.random.RandomState(r.randrange(2**31)).permutation(len(d))]
                d[:, 1] *= 10**r.uniform(-3, 3); d[:, 2] += 2*np.pi*r.randint(-3, 3); np.savetxt(path, d)
            if r.random() < .5: pw, avg = e['epp'], False
            else: pw, avg = e['epp']*e['frep_mks'], True
            obj[q] = DerivedPulses.FROGPulse(e['time_window_ps'], e['center_wavelength_nm'], pw, frep_MHz=e['frep_MHz'],
                                             NPTS=e['NPTS'], power_is_avg=avg, fileloc=path, flip_phase=frd)
        elif op == 'frogfine':
            fw, frd, u, m2, rf, ex, bins = a; rp = np.random.RandomState(r.randrange(2**31))
            smooth = r.random() < .4; A = rp.uniform(.5, 2, n)*np.exp(1j*(2*np.pi*rp.rand() + np.cumsum(rp.uniform(-2.4, 2.4, None if smooth else n)*np.ones(n)))); turn = np.exp(2j*np.pi*ex/w.m)
            path = os.path.join(dirpath, 'frog%d.dat' % os.getpid()); got = []
            for f in (A, A*turn):
                o = Pulse(n=n); o.set_center_wavelength_nm(w.nm(v['c'])); o.set_time_window_ps(bt); o.set_AW(w.amp*f)
                if fw and r.random() < .5: o.write_frog(path)
                else: o.write_frog(path, flip_phase=fw)
                q2 = DerivedPulses.FROGPulse(rf*bt, C_NMPS/(w.thz(v['c']) + u/bt), 2.5, frep_MHz=50., NPTS=m2, fileloc=path, **({} if frd and r.random() < .5 else dict(flip_phase=frd)))
                compare('energy of the pulse read', q2.calc_epp(), 2.5, where); count(); got.append(np.array(q2.AW))
            bins = np.array(bins); on = bins >= 0; ok = bins != -3; g = got[0]; fl = 1e-8*np.max(np.abs(g)); same = fw == frd
            if np.any(np.abs(g[bins == -2]) > fl): raise Mismatch(where + ': field outside the frequencies of the file: %s in bins %s' % (g, bins))
            want = (A if same else np.conj(A))[bins[on]]; k0 = np.argmax(np.abs(g[on])); sc = g[on][k0]/want[k0]
            compare('field at the frequencies of the file', g[on]/sc, want, where, tol=1e-7)
            lo, hi = np.min(np.abs(A)), np.max(np.abs(A)); mid = np.abs(g[bins <= -10]/sc)
            if np.any((mid < lo*(1 - 1e-6)) | (mid > hi*(1 + 1e-6))): raise Mismatch(where + ': amplitudes between the bins of the file leave their range')
            if smooth:                          # a delayed pulse: its phase runs on evenly between the bins too
                x = -10 - bins[bins <= -10]; lo = x//rf; part = x/rf - lo; step = np.angle(A[1]/A[0])*(1 if same else -1)
                f = w.thz(v['c']) + (lo - n//2)/bt; wl = part*f/(f + part/bt)*(f + 1/bt)/f       # the same part, of the wavelengths
                turned = np.angle(g[bins <= -10]/sc/(A if same else np.conj(A))[lo]/np.exp(1j*step*(part + wl)/2))
                if np.any(np.abs(turned) > abs(step)*(np.abs(part - wl)/2 + .02) + 1e-6): raise Mismatch(where + ': phases between the bins of the file are off by %s (%s a bin)' % (turned, step))
            compare('field of the file with a constant phase added', got[1][ok]*np.abs(g[on][k0])/np.abs(got[1][on][k0]), (g*(turn if same else np.conj(turn)))[ok], where, floor=fl)
        elif op == 'avg':
            x = (np.array(a['num'], float) @ w.expo).real/(np.array(a['den'], float) @ w.expo).real
            f = w.thz(v['c']) + x/bt
            compare('average frequency', p.calculate_weighted_avg_frequency_mks(), f*1e12, where)
            compare('average wavelength', p.calculate_weighted_avg_wavelength_nm(), C_NMPS/f, where); count()
        elif op == 'autoc':
            den = 2.0**v['d']*v['o']
            x = (np.array(a, float) @ w.expo).real*(w.amp/den)**4
            compare('autocorrelation', p.calculate_intensity_autocorrelation(), x, where, floor=1e-40*w.big**4); count()
        elif op in ('xfrog', 'sfrog'):
            den = 2.0**v['d']*v['o']; steps = a['steps']
            S = np.abs(np.array(a['s'], float) @ w.expo)
            dT = bt/n; ty = 'xfrog' if op == 'xfrog' else 'frog'
            if op == 'xfrog': S = S*(w.amp/den)/2.0**((n-1)**2); kw = dict(gate_function_width_ps=dT/math.sqrt(2*math.log(2)))
            else: S = S*(w.amp/den)**2; kw = {}
            if not (op == 'xfrog' and r.random() < .5): kw['gate_type'] = ty
            DD, FF, ext, got = p.spectrogram(time_steps=steps, **kw)
            T = (np.arange(n) - n//2)*dT
            dl = np.linspace(T[0], T[-1], steps); fq = np.arange(n//2)/bt
            compare('spectrogram', got, S, where, floor=(1e-8*w.big if op == 'xfrog' else 1e-8*w.big**2)); count()
            compare('delays', DD, np.tile(dl, (n//2, 1)), where, floor=1e-12*bt)
            compare('frequencies', FF, np.tile(fq[:, None], (1, steps)), where)
            compare('extent', ext, (dl[0], dl[-1], fq[0], fq[-1]), where, floor=1e-12*bt)
        elif op == 'setepp': p.set_epp(expected(w, new)['epp'])
        else: raise RuntimeError('unknown operation ' + op)
        for k in range(P):
            if post[k] is not None:
                views[k] = post[k]
                if post[k]['st'] == 'field': w.big = max(w.big, float(np.sum(np.abs(expected(w, post[k])['AW']))))
        last = i == len(h) - 1
        for k in range(P):
            if views[k]['st'] in ('none',): continue
            names = list(names_pool)
            r.shuffle(names)
            if not (last or full): names = names[:r.choice([0, 1, 3, 6])]
            observe(w, obj[k], views[k], names, where + ', reading slot %d' % (k+1), count)
            if last: observe(w, obj[k], views[k], names, where + ', reading slot %d again' % (k+1), count)

INV = ['RoundTrip', 'Parseval', 'Centred']
PROP = ['RefusedIsNoOp', 'OnlyTarget', 'PhaseKeepsMagnitude', 'WholeSampleShift', 'ExpandKeepsSpacing', 'ChirpInverse', 'ExportIsSnapshot']

def design(c, ops):
    """Exhaustive check of the specification itself: every history of the given length, small constants."""
    return [('PulseLattice', dict(M=8, P=2, NS={4}, TS={1, 2}, CS={2400}, OPS=set(ops), DEPTH=c.scale(2, 3), SIM=False, VIEWS=set()), INV, PROP)]

def run(c, ops, num, depth, only=None, batches=None, design=None, lift=None, **kw):
    """The whole of a pulse-history check: generate with TLC, replay each history several ways."""
    allj = []
    for b in range(batches or c.scale(2, 8)):
        allj += jobs(ops, num, depth, c.seed + 1000*b, **kw)
    for name, consts, inv, prop in (design or []):
        allj.insert(0, (('PulseLattice', consts), dict(invariants=inv, properties=prop, timeout=1500, heap='3g', workers=2)))
    res = tlc.many(allj, parallel=8)
    d = tempfile.mkdtemp(prefix='pulse_')
    ops_seen = c.notes.setdefault('calls_replayed', {})
    def count(): c.steps += 1
    try:
        ls = []
        for ji, rs in enumerate(res):
            c.tlc(rs, 'states_design_exhaustive' if ji < len(design or []) else 'states_simulated')
            for ti, tr in enumerate(rs.lines):
                for s in tr['h']: ops_seen[s['op']] = ops_seen.get(s['op'], 0) + 1
                ls.append(dict(tr, seed=c.seed*1000003 + ji*9973 + ti))
        c.replay_many(ls, lambda x: replay(x, x['seed'], count, d, only=only, lift=lift))
        if c.violations: return
    finally:
        shutil.rmtree(d, ignore_errors=True)
        pass
    missing = [o for o in ops if not ops_seen.get(o)]
    if missing: c.notes['operations_never_generated'] = missing
