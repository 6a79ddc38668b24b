"""C28: mixing runs written to a file come back as they were."""
import hashlib, json, os, random, shutil, tempfile, types
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X
INV = ['Distinct', 'Exclusive', 'Cursors']

def run(c):
    q = c.scale(1, 8)
    small = dict(FILES={1}, PARAMS={'a', 'b'}, PROBS={1}, SAVES={1, 2}, VALUES={0}, MAXRUNS=2, DEPTH=c.scale(6, 8), READERS=1, SIM=False)
    big = dict(FILES={1, 2}, PARAMS={'T', 'power', 'L', 'x1'}, PROBS={1, 2, 3, 4}, SAVES={1, 2, 3, 7, 40, 620}, VALUES=set(range(-6, 7)), READERS=3, SIM=True)
    jobs = [(('Archive', small), dict(invariants=INV, properties=['Kept', 'ReadOnly'], view='View', workers=4, timeout=300))]
    for k in range(3): jobs.append((('Archive', dict(big, DEPTH=[20, 45, 90][k], MAXRUNS=[3, 8, 14][k])), dict(invariants=['Emit'] + INV, properties=['Kept', 'ReadOnly'], simulate=[30, 25, 15][k]*q, depth=100, seed=c.seed*53 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = [dict(l, seed=c.rng.random()) for x in rs[1:] for l in {json.dumps(l): l for l in x.lines}.values()]
    c.notes['fields read back'] = sum(n for n in c.replay_many(ls, lambda t: replay(c, t), label='history', seconds=120) if n)

def problems(r):
    """Four mixing problems, on grids of their own: two as the mixer builds them, two as any object with three pulses."""
    from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
    import matplotlib.pyplot as plt
    out = {}
    for k in (1, 2, 3, 4):
        N = 2*r.randrange(2, 9); win = r.uniform(.5, 2)*N/12
        frep = r.choice([.1, 10., 100., r.uniform(1, 1e3)])
        g = lambda: np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(N)])
        lp, ls = r.uniform(1000, 1050), r.uniform(1400, 1700); wl = [lp, ls, 1/(1/lp - 1/ls)]
        win = [win]*3 if k < 3 else [win*r.uniform(.7, 1.4) for _ in range(3)]
        p, s, i = [X.pulse_on((N, v, l), r, g()) for v, l in zip(win, wl)]
        for o in (p, s, i): o.set_frep_MHz(frep)
        if k < 3: b = D.dfg_problem(p, s, X.make('ppln', 50., length=1e-3), disable_SPM=True, wg_mode=True, Aeff_squm=50.); plt.close('all')
        else: b = types.SimpleNamespace(pump=p, sgnl=s, idlr=i)
        out[k] = (b, N, win, wl, frep)
    return out

def solved(b, N, saves, r, real):
    """A solver that has saved that many positions: integrated, or filled with fields; and what it saved."""
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    o = ode_solve.Output(max(saves - 1, 1))
    y = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(3*N)])*10.0**r.randrange(-8, 4)
    if real and saves > 1 and hasattr(b, 'deriv'):
        s = ode_solve.ODEint(y*1e-3, 0.0, 1e-4, 1e-8, 1e-6, 1e-4, 0.0, o, dopr853.StepperDopr853, b, dense=True)
        s.integrate()
        if o.count != saves: raise Mismatch('the integrator saved %d positions, %d asked for' % (o.count, saves))
    else:
        o.init(3*N, 0.0, 1.0, dtype=np.dtype(complex))
        f = np.frombuffer(np.random.RandomState(r.randrange(2**31)).normal(size=(saves, 6*N)).tobytes(), dtype=complex).reshape(saves, 3*N)*10.0**r.randrange(-8, 4)
        for k in range(saves): o.save(k/max(saves - 1, 1), f[k])
        s = types.SimpleNamespace(nvar=3*N, out=o)
    return s, o.ysave[:saves].copy()

def digest(f):
    with open(f, 'rb') as x: return hashlib.sha1(x.read()).hexdigest()

def replay(c, tr):
    d = tempfile.mkdtemp(prefix='archive_')
    opened = []
    try: return history(c, tr, d, opened)
    finally:
        for o in opened:
            try: o.tables_file.close()
            except Exception: pass
        shutil.rmtree(d, ignore_errors=True)

def history(c, tr, d, opened):
    from pynlo.interactions.ThreeWaveMixing import multi_run_rw as R
    r = random.Random(tr['seed'])
    probs = problems(r); fields, readers, looks = {}, [], 0
    name = {f: os.path.join(d, 'runs%d.h5' % f) for f in (1, 2)}
    VAL = {v: v*.5 if v % 3 else v*10.0**r.randrange(-9, 13) for v in range(-6, 7)}
    w = None; snap = {}
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s)' % (t + 1, op)
        if op == 'start': w = R.DFGWriter(name[s['f']], s['p']); opened.append(w)
        elif op == 'add':
            b, N, win, wl, frep = probs[s['prob']]
            sol, ys = solved(b, N, s['saves'], r, r.random() < .3)
            val = VAL[s['val']]
            w.add_run(b, sol, val)
            if not np.array_equal(sol.out.ysave[:s['saves']], ys): raise Mismatch('%s: writing changed the solution' % what)
            fields[s['id']] = ys
        elif op == 'end': w.tables_file.close(); w = None
        elif op == 'read':
            snap[s['f']] = digest(name[s['f']])
            x = R.DFGReader(name[s['f']], s['p']); opened.append(x); readers.append((x, s['f']))
            if x.run_ctr != s['n']: raise Mismatch('%s: the reader counts %r runs of %d' % (what, x.run_ctr, s['n']))
        elif op == 'done':
            x, f = readers[s['i'] - 1]; x.tables_file.close()
            if digest(name[f]) != snap[f]: raise Mismatch('%s: reading changed the file' % what)
        else:
            x = readers[s['i'] - 1][0]
            if op == 'param':
                v = x.get_run_param() if s['k'] == 0 else x.get_run_param(s['k'] - 1)
                if not v == VAL[s['val']]: raise Mismatch('%s: parameter of run %d is %r, %r was written' % (what, s['k'], v, VAL[s['val']]))
            elif op == 'bad':
                for f in (x.get_run, x.get_run_param):
                    try: f(s['k'])
                    except IndexError: continue
                    raise Mismatch('%s: run index %d accepted by %s' % (what, s['k'], f.__name__))
            elif op == 'none':
                if x.get_next_run() is not None: raise Mismatch('%s: a run after the last' % what)
            else:
                z = None if s['z'] == 0 else s['z'] - 1 if r.random() < .7 else s['z'] - 1 - s['saves']
                if op == 'next': ps = x.get_next_run() if z is None else x.get_next_run(z_num=z)
                else:
                    kw = {} if z is None else dict(z_num=z)
                    ps = x.get_run(**kw) if s['k'] == 0 else x.get_run(s['k'] - 1, **kw)
                if ps is None or len(ps) != 3: raise Mismatch('%s: %r' % (what, ps))
                b, N, win, wl, frep = probs[s['prob']]; want = fields[s['id']][s['pos'] - 1]
                for j, nm in enumerate(('pump', 'signal', 'idler')):
                    p = ps[j]; f = want[j*N:(j + 1)*N]
                    if p.NPTS != N: raise Mismatch('%s: %s on %d points' % (what, nm, p.NPTS))
                    if not abs(p.center_wavelength_nm/wl[j] - 1) < 1e-12 or not abs(p.time_window_ps/win[j] - 1) < 1e-12 or not abs(p.frep_MHz/frep - 1) < 1e-12:
                        raise Mismatch('%s: %s is centred at %r nm over %r ps at %r MHz, the run was at %r' % (what, nm, p.center_wavelength_nm, p.time_window_ps, p.frep_MHz, (wl[j], win[j], frep)))
                    if not np.allclose(p.wl_nm, X.wl((N, win[j], wl[j])), rtol=1e-11, atol=0): raise Mismatch('%s: wavelengths of the %s' % (what, nm))
                    if p.AW.shape != f.shape or not np.max(abs(p.AW - f)) <= 1e-12*np.max(abs(f)): raise Mismatch('%s: the %s fields of run %d at position %d of %d are not those written' % (what, nm, s['id'], s['pos'], s['saves']))
                    looks += 1
                if r.random() < .3: ps[0].set_AW(ps[0].AW*0 + 1); ps[1].set_frep_MHz(3.); ps[2].set_center_wavelength_nm(500.)      # the caller's own
    return looks
