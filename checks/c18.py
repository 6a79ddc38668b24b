"""C18: setting up a mixing problem and reading its results."""
import copy, json, math, random, types
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X

C = 299792458.0
def run(c):
    r = random.Random(c.seed*181)
    q = c.scale(1, 10)
    jobs = [(('DfgSetup', dict(DEPTH=3, SIM=False, PMAX=10, HS={1, 2})), dict(invariants=['Disjoint', 'Balanced', 'JustRefusal'], properties=['Steady'], view='View', workers=4, timeout=300))]
    for k in range(3):
        jobs.append((('DfgSetup', dict(DEPTH=8 + 9*k, SIM=True, PMAX=160, HS={2, 4, 8})), dict(invariants=['Emit', 'Disjoint', 'JustRefusal'], properties=['Steady'], simulate=130*q, depth=40, seed=c.seed*29 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = list({json.dumps(l): l for x in rs[1:] for l in x.lines}.values()); r.shuffle(ls)
    for t in ls[:c.scale(330, 3300)]:
        c.replay(t, lambda t: replay(c, t, r.random()), label='history')
        if len(c.violations) >= 5: return
    c.notes['fields read back and compared'] = LOOKS[0]

def state(p): return (p.NPTS, p.center_wavelength_nm, p.time_window_ps, p.frep_MHz, p.AW.tobytes(), p.wl_nm.tobytes(), p.T_ps.tobytes())
def xstate(x, p): return (x.mode, getattr(x, 'T', None), getattr(x, 'theta', None), x.length_mks, x.deff, x.get_pulse_n(p).tobytes(), x.pp(1e-4) if x.mode == 'PP' else None)
def replay(c, tr, seed):
    from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
    import matplotlib.pyplot as plt
    r = random.Random(seed)
    pump = sgnl = x = None; cur = None
    probs, outs, res = [], {}, []
    def check_inputs(what):
        if cur and cur['snap'] != (state(pump), state(sgnl), xstate(x, pump)): raise Mismatch('%s: the pulses or the crystal given were modified' % what)
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s)' % (t + 1, op)
        if op == 'in':
            v = s['x']; h, g = v['h'], v['g']
            bpm = r.random() < .4
            f0 = X.C_NMPS/(r.uniform(1500, 1600) if bpm else r.uniform(1000, 1100))
            u = f0/v['P']; win = 1/u
            kind = 'agse' if bpm else 'ppln'
            par = r.uniform(0, 1.5) if bpm else r.uniform(20, 150)
            L = 10**r.uniform(-3, -2)
            x = X.make(kind, par, length=L, enable_caching=r.random() < .5)
            if not bpm: x.set_pp((L/r.uniform(3, 30),))
            rnd = lambda n: np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)])
            pump = X.pulse_on((2*h, win, X.C_NMPS/(v['P']*u)), r, rnd(2*h)); sgnl = X.pulse_on((2*g, win, X.C_NMPS/(v['S']*u)), r, rnd(2*g))
            sgnl.set_frep_MHz(pump.frep_MHz)
            wg = not bpm and r.random() < .4
            kw = dict(wg_mode=True, Aeff_squm=10**r.uniform(0, 3)) if wg else dict(pump_waist=10**r.uniform(-5, -3), apply_gouy_phase=r.random() < .5)
            cur = dict(v=v, u=u, kind=kind, par=par, win=win, kw=kw, L=L, frep=pump.frep_MHz, AWp=pump.AW.copy(), AWs=sgnl.AW.copy(), snap=(state(pump), state(sgnl), xstate(x, pump)))
        elif op == 'make':
            try: d = D.dfg_problem(pump, sgnl, x, disable_SPM=True, **cur['kw'])
            except ValueError as e:
                if s['ok']: raise Mismatch('%s: refused (%s) although the grids are disjoint and equal: %r' % (what, e, cur['v']))
                d = None
            plt.close('all')
            check_inputs(what)
            if d is None: continue
            if not s['ok']: raise Mismatch('%s: accepted although the grids overlap or differ: %r' % (what, cur['v']))
            p = dict(cur, d=d); probs.append(p)
            want = X.C_NMPS/(s['idler']*p['u'])
            N = 2*p['v']['h']
            i = d.idlr_in
            if not abs(i.center_wavelength_nm/want - 1) < 1e-11: raise Mismatch('%s: the idler is centred at %r, the difference frequency is at %r' % (what, i.center_wavelength_nm, want))
            if i.NPTS != N or not abs(i.time_window_ps/p['win'] - 1) < 1e-14 or i.frep_MHz != p['frep']: raise Mismatch('%s: the idler grid is %r' % (what, (i.NPTS, i.time_window_ps, i.frep_MHz)))
            # every balancing triple of bins balances in absolute frequency
            W = [pump.W_mks, sgnl.W_mks, i.W_mks]
            for _ in range(5):
                a, b = r.randrange(N), r.randrange(N); j = a + b - N//2
                if 0 <= j < N and not abs(W[1][a] + W[2][b] - W[0][j]) < 1e-11*W[0][j]: raise Mismatch('%s: bins %r' % (what, (j, a, b)))
            y = d.ystart
            if y.shape != (3*N,) or not np.allclose(y[:N], p['AWp'], rtol=1e-12, atol=0) or not np.allclose(y[N:2*N], p['AWs'], rtol=1e-12, atol=0) or np.max(abs(y[2*N:])) > 1e-25:
                raise Mismatch('%s: the start vector is not pump, signal and an empty idler' % what)
            yy = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(3*N)]); zz = r.uniform(0, p['L']); first = np.zeros(3*N, complex)
            d.deriv(zz, yy.copy(), first); p['probe'] = (zz, yy, first)
        elif op == 'disturb':
            pump.set_AW(np.zeros(pump.NPTS) + 2j); pump.set_center_wavelength_nm(700.); sgnl.set_AW(sgnl.AW*1j); sgnl.set_time_window_ps(9.); sgnl.set_frep_MHz(5.)
            if hasattr(x, 'theta'): x.set_theta(.3)
            else: x.set_T(77.); x.set_pp((1e-5,))
            x.deff = 1e-9; cur = None
        elif op == 'deriv':
            p = probs[s['q'] - 1]; N = 2*p['v']['h']
            y = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(3*N)]); y0 = p['d'].ystart.copy()
            p['d'].deriv(r.uniform(0, p['L']), y, np.zeros(3*N, complex))
            if not np.array_equal(y0, p['d'].ystart): raise Mismatch('%s: the start vector changed' % what)
            zz, yy, first = p['probe']; out = np.zeros(3*N, complex)
            p['d'].deriv(zz, yy, out)
            if not np.array_equal(out, first, equal_nan=True): raise Mismatch('%s: the same problem now has other rates' % what)
            check_inputs(what)
        elif op in ('solve', 'again'):
            if op == 'solve':
                p = probs[s['q'] - 1]; N = 2*p['v']['h']; m = s['m']
                ys = np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(3*N)] for _ in range(m + s['extra'])])
                xs = np.array(sorted(r.uniform(0, p['L']) for _ in range(m + s['extra'])))
                if r.random() < .5: xs[0] = 0.
                o = types.SimpleNamespace(ysave=ys, xsave=xs, count=m)
                outs[len(res) + 1] = (o, ys.copy(), xs.copy(), p)
                of = len(res) + 1
            else: of = res[s['k'] - 1][1]
            o, ys, xs, p = outs[of]
            k = p['d'].process_stepper_output(o)
            if not (np.array_equal(o.ysave, ys) and np.array_equal(o.xsave, xs)): raise Mismatch('%s: the saved solution was changed' % what)
            N = 2*p['v']['h']
            if k.n_saves != o.count: raise Mismatch('%s: %r saves, %r expected' % (what, k.n_saves, o.count))
            for nm, j in (('pump', 0), ('sgnl', 1), ('idlr', 2)):
                f = ys[:o.count, j*N:(j + 1)*N]
                if not np.isfinite(sum(nidx(p, [p['v']['P'], p['v']['S'], p['v']['P'] - p['v']['S']][j], j))): continue     # not transparent
                if not abs(getattr(k, nm + '_max_field')/np.max(abs(f)) - 1) < 1e-10: raise Mismatch('%s: largest %s field' % (what, nm))
            res.append((k, of))
            check_inputs(what)
        elif op == 'get':
            k, of = res[s['k'] - 1]
            p = getattr(k, 'get_' + s['w'])(s['n'] - 1)
            look(p, s, outs[of], what)
            if not k.get_z(s['n'] - 1) == outs[of][2][s['n'] - 1]: raise Mismatch('%s: position %r' % (what, k.get_z(s['n'] - 1)))
        elif op == 'look':
            for (k, of), v in zip(res, s['shown']):
                if v['n']: look(k.pulse, v, outs[of], what)
        elif op == 'scribble':
            k, of = res[s['k'] - 1]
            p = getattr(k, 'get_' + r.choice(['pump', 'sgnl', 'idlr']))(0)
            how = r.randrange(3)
            if how == 0: a = p.AW; a *= 0
            elif how == 1: p.set_AT(np.ones(p.NPTS))
            else: p.chirp_pulse_W(1.0); p.set_center_wavelength_nm(333.)

def nidx(pr, cen, w):
    wl = X.wl((2*pr['v']['h'], pr['win'], X.C_NMPS/(cen*pr['u'])))
    return X.index(pr['kind'], 'Gayer_5pctMg', pr['par'], ('mix' if w == 0 else 'o') if pr['kind'] == 'agse' else 'none', wl)

LOOKS = [0]
def look(p, s, out, what):
    o, ys, xs, pr = out
    N = 2*pr['v']['h']; j = ['pump', 'sgnl', 'idlr'].index(s['w']); z = xs[s['n'] - 1]
    bpm = pr['kind'] == 'agse'
    def grid(cen): return X.wl((N, pr['win'], X.C_NMPS/(cen*pr['u'])))
    def n(cen, w): return nidx(pr, cen, w)
    if p.NPTS != N or not abs(p.time_window_ps/pr['win'] - 1) < 1e-14 or p.frep_MHz != pr['frep']: raise Mismatch('%s: the grid of the returned pulse' % what)
    want_wl = X.C_NMPS/(s['c']*pr['u'])
    if not abs(p.center_wavelength_nm/want_wl - 1) < 1e-11: raise Mismatch('%s: %s is centred at %r, not %r' % (what, s['w'], p.center_wavelength_nm, want_wl))
    if not np.allclose(p.wl_nm, grid(s['c']), rtol=1e-10, atol=0): raise Mismatch('%s: wavelengths of the returned %s' % (what, s['w']))
    wl = grid(s['c'])*1e-9; k = 2*np.pi*n(s['c'], j)/wl; W = 2*np.pi*C/wl
    np_ = n(pr['v']['P'], 0)[int(np.argmax(abs(pr['AWp'])))]
    want = ys[s['n'] - 1, j*N:(j + 1)*N]*np.exp(1j*(k*z - z*np_/C*W))
    got = p.AW
    if not np.isfinite(k).all(): return          # the crystal is not transparent there
    LOOKS[0] += 1
    if got.shape != want.shape or not np.all(abs(got - want) <= 1e-6*np.max(abs(ys[s['n'] - 1]))):
        raise Mismatch('%s: %s at save %d (z=%g of %g) differs from the saved field with its phase restored by %g' % (what, s['w'], s['n'], z, pr['L'], np.max(abs(got - want))))
    if not np.allclose(abs(got), abs(ys[s['n'] - 1, j*N:(j + 1)*N]), rtol=1e-9, atol=1e-9): raise Mismatch('%s: magnitudes' % what)
