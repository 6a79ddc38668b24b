"""C20: no object's state leaks into another."""
import collections, json, random
from concurrent.futures import ProcessPoolExecutor
from vlib import tlc, isolate as I
from vlib.check import Mismatch

SMALL = {'arr', 'userarr', 'pulsearr', 'psetarr', 'clone', 'pclone'}
def run(c):
    r = random.Random(c.seed*211)
    K = dict(MAXO=4, SHARED=set(), KEEPS=set(), DIRTY=set())
    inv = ['Isolated', 'Closed']
    jobs = [(('Isolation', dict(K, DEPTH=4, SIM=False, OPSET=SMALL)), dict(invariants=inv, properties=['Frame'], view='View', workers=4))]
    neg = [dict(SHARED={'pulse'}), dict(KEEPS={'pulse'}), dict(DIRTY={'clone'})]
    for k in neg: jobs.append((('Isolation', dict(dict(K, **k), DEPTH=4, SIM=False, OPSET=SMALL)), dict(invariants=['Isolated'], view='View', allow_violation=True)))
    n = c.scale(40, 600)
    for k in range(3):
        jobs.append((('Isolation', dict(K, MAXO=[8, 14, 22][k], DEPTH=[14, 24, 40][k], SIM=True, OPSET=set())), dict(invariants=['Emit'] + inv, properties=['Frame'], simulate=n, depth=60, seed=c.seed*71 + k)))
    for k, g in enumerate(({'xtal', 'xset', 'xcopy', 'xuse', 'pulse', 'pset', 'scribble', 'beam', 'bset', 'bmatch', 'buse', 'poling'},
                           {'fiber', 'fiberarr', 'fiberdb', 'fblank', 'fset', 'fsetarr', 'fuse', 'arr', 'userarr', 'pulse', 'scribble'},
                           {'ssfm', 'sset', 'prop', 'gain', 'coh', 'fiber', 'fset', 'pulse', 'pset', 'scribble'},
                           {'arr', 'userarr', 'pulse', 'pulsearr', 'pdict', 'userdict', 'pulsedict', 'blank', 'clone', 'derive', 'pset', 'psetarr', 'pload', 'pclone', 'pcomp', 'comp', 'plook', 'scribble'},
                           {'pumps', 'mset', 'mset2', 'arr', 'dfg', 'dderiv', 'dproc', 'mget', 'xtal', 'xset', 'poling'},
                           {'pumps', 'mset', 'dfg', 'dderiv', 'dproc', 'mget', 'xtal', 'scribble', 'arr', 'userarr'},
                           {'xtal', 'xset', 'pulse', 'beam', 'bset', 'bmatch', 'buse', 'wg', 'wset', 'scribble'},
                           {'ode', 'odestep', 'odewhole', 'arr', 'userarr', 'comp', 'cuse', 'scribble'})):
        jobs.append((('Isolation', dict(K, MAXO=14, DEPTH=26, SIM=True, OPSET=g)), dict(invariants=['Emit'] + inv, properties=['Frame'], simulate=n if k in (4, 5, 6) else n//3, depth=60, seed=c.seed*91 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    for k, x in zip(neg, rs[1:4]):
        if x.ok or 'Isolated' not in x.error: raise tlc.TLCError('the model with %r must violate Isolated' % k)
    ls = list({json.dumps(l): l for x in rs[4:] for l in x.lines}.values()); r.shuffle(ls)
    work = [(l, r.randrange(10**9)) for l in ls]
    I.imports()
    ops, out = collections.Counter(), collections.Counter()
    with ProcessPoolExecutor(8) as ex:
        for (tr, seed), (bad, steps, o) in zip(work, ex.map(I.judge, work)):
            def show(t):
                if bad: raise Mismatch('(seed %d) %s' % (seed, bad))
            c.replay(tr, show, label='history'); c.steps += steps
            for t, what in o.items(): ops[tr['h'][int(t) - 1]['n']] += 1; out[what] += 1
    c.notes['operations'] = dict(ops); c.notes['outcomes'] = dict(out)
