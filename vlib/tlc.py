"""Running TLC and collecting what it printed."""
import json, os, sys, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

REPO_SRC = '/repo/src'

class TLCError(RuntimeError):
    """The machinery failed (never a verdict about the code)."""

class Result:
    def __init__(self):
        self.states = 0        # distinct states (model checking) or states generated (simulation)
        self.transitions = 0   # states generated
        self.lines = []        # decoded JSON lines printed by the specification
        self.ok = True
        self.error = None
        self.out = ''
        self.wall = 0.0

def tla(v):
    """Python value -> TLA+ text for a cfg constant or a data module."""
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(type(v))

def run(module, constants, spec='Spec', invariants=(), properties=(), constraint=None,
        postcondition=None, simulate=None, depth=None, seed=1, workers=1, timeout=600,
        deadlock=False, view=None, data=None, extra_cfg='', heap='2g', allow_violation=False):
    """Run TLC on spec/<module>.tla.  data: {module name: text} of extra modules to put beside it."""
    d = tempfile.mkdtemp(prefix='tlc_')
    res = Result()
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (data or {}).items():
            with open(os.path.join(d, name), 'w') as f: f.write(text)
        cfg = ['SPECIFICATION ' + spec]
        defs = []
        if constants:
            cfg.append('CONSTANTS')
            for k, v in constants.items():
                if isinstance(v, (list, tuple, dict)) or (isinstance(v, int) and v < 0 and not isinstance(v, bool)):
                    defs.append('def_%s == %s' % (k, tla(v))); cfg.append(' %s <- def_%s' % (k, k))
                elif isinstance(v, (set, frozenset)) and any(isinstance(x, (tuple, list, dict)) or (isinstance(x, int) and x < 0) for x in v):
                    defs.append('def_%s == %s' % (k, tla(v))); cfg.append(' %s <- def_%s' % (k, k))
                else:
                    cfg.append(' %s = %s' % (k, tla(v)))
        for i in invariants: cfg.append('INVARIANT ' + i)
        for p in properties: cfg.append('PROPERTY ' + p)
        if constraint: cfg.append('CONSTRAINT ' + constraint)
        if postcondition: cfg.append('POSTCONDITION ' + postcondition)
        if view: cfg.append('VIEW ' + view)
        cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        cfg.append(extra_cfg)
        root = module
        if defs:
            root = 'MC_' + module
            with open(os.path.join(d, root + '.tla'), 'w') as f:
                f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (root, module, '\n'.join(defs)))
        with open(os.path.join(d, 'mc.cfg'), 'w') as f: f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
               '-workers', str(workers), '-config', 'mc.cfg']
        if simulate: cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed), '-depth', str(depth or 100)]
        cmd.append(root + '.tla')
        import time
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC timed out after %ss on %s' % (timeout, module))
        res.wall = time.time() - t0
        out = p.stdout.decode('utf8', 'replace')
        res.out = out
        other = []
        for line in out.split('\n'):
            if line.startswith('"{') or line.startswith('"['):
                try: res.lines.append(json.loads(json.loads(line)))
                except ValueError: raise TLCError('unreadable line from TLC: ' + line[:200])
            else: other.append(line)
        text = '\n'.join(other)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if m: res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', text)
        if m: res.transitions = res.states = int(m[-1])
        bad = p.returncode != 0 or 'Error:' in text
        if bad:
            res.ok = False
            res.error = text[-3000:]
            if not allow_violation: raise TLCError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, text[-3000:]))
        elif not m and not res.transitions:
            raise TLCError('TLC reported no states on %s:\n%s' % (module, text[-2000:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def many(jobs, parallel=8):
    """jobs: list of (args, kwargs) for run(); returns results in order."""
    with ThreadPoolExecutor(max_workers=parallel) as ex:
        fs = [ex.submit(run, *a, **k) for a, k in jobs]
        if REPO_SRC in sys.path:
            try:                             # meanwhile, so that its objects are frozen below
                import pynlo
                from pynlo.interactions.FourWaveMixing import SSFM
            except Exception: pass
        rs = [f.result() for f in fs]
    import gc
    gc.collect(); gc.freeze()          # the code under test collects garbage often; keep the histories out of it
    return rs
