"""
Task runner: symbolic execution of harness tasks, concrete replay of models against the unmodified sources, evidence.
"""
import dataclasses
import hashlib
import importlib
import json
import os
import random
import resource
import select as _select
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')


@dataclasses.dataclass
class Task:
    name: str                 # unique within the property
    fn: str                   # function in the harness module
    params: dict              # JSON-able
    bound: str = ''           # stated bound
    base: bool = True         # base tasks run in both tiers; others in the thorough tier only
    timeout: int = 0          # seconds (0: default)


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


def norm(x):
    """Plain, comparable rendering of a concrete value."""
    import numpy as np
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else ['frac', x.numerator, x.denominator]
    if isinstance(x, (float, np.floating)):
        return ['float']
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return sorted([norm(k), norm(v)] for k, v in x.items())
    if dataclasses.is_dataclass(x):
        return [type(x).__name__] + [norm(getattr(x, f.name)) for f in dataclasses.fields(x) if f.compare]
    return ['obj', type(x).__name__]


# --------------------------------------------------------------------------------------------------
# Concrete mode
# --------------------------------------------------------------------------------------------------

class ConH:
    concrete = True

    def __init__(self, inputs, tier='quick'):
        self.inputs = inputs
        self.tier = tier
        self.obs = []
        self.checks = 0

    def fin(self, name, *dom):
        vals = list(range(dom[0], dom[1] + 1)) if len(dom) == 2 else list(dom[0])
        v = self.inputs.get(name, vals[0])
        if v not in vals:
            raise AssumeFailed(f'{name}={v} outside its domain')
        return v

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def int(self, name, lo=None, hi=None):
        v = self.inputs.get(name, 0 if (lo is None or lo <= 0) else lo)
        return v

    def real(self, name, lo=None, hi=None, halfopen=False):
        v = self.inputs.get(name, [0, 1])
        return Fraction(v[0], v[1])

    def choice(self, name, seq):
        return seq[self.fin(name, range(len(seq)))]

    def assume(self, c):
        if not c:
            raise AssumeFailed('assumption')

    def check(self, label, c):
        self.checks += 1
        if not c:
            raise CheckFailed(label)

    def eq(self, a, b):
        r = a == b
        return bool(r) if not hasattr(r, 'shape') else bool(r.all())

    def all(self, cs):
        return all(list(cs))

    def any(self, cs):
        return any(list(cs))

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, label, v):
        self.obs.append([label, norm(v)])

    def freeze(self, *tables):
        pass

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def sample(self, v, name=None):
        return v


def run_concrete(prop, fn, params, inputs, tier='quick'):
    """Run a harness task on concrete inputs. Returns dict(status, ...)."""
    mod = importlib.import_module('harness.' + prop.lower())
    h = ConH(inputs, tier)
    try:
        getattr(mod, fn)(h, **params)
    except AssumeFailed as e:
        return {'status': 'assume', 'detail': str(e), 'obs': h.obs}
    except CheckFailed as e:
        return {'status': 'fail', 'label': str(e), 'detail': f'assertion {e} does not hold', 'obs': h.obs}
    except RecursionError as e:
        return {'status': 'fail', 'label': 'exception:RecursionError', 'detail': str(e)[:200], 'obs': h.obs}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
        return {'status': 'fail', 'label': f'exception:{type(e).__name__}', 'detail': f'{type(e).__name__}: {str(e)[:200]} at {" < ".join(reversed(where))}', 'obs': h.obs}
    return {'status': 'pass', 'obs': h.obs, 'checks': h.checks}


def concrete_setup():
    sys.path[:0] = [REPO, VERIF]


def concrete_server():
    """Serves replay requests (JSON lines) on stdin/stdout; runs the unmodified sources."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    concrete_setup()
    import ctypes
    libc = ctypes.CDLL(None)
    for line in sys.stdin:
        r = json.loads(line)
        try:
            importlib.import_module('harness.' + r['property'].lower())
        except BaseException:
            pass
        # every request runs in a process of its own, from the freshly imported package
        pid = os.fork()
        if pid == 0:
            libc.prctl(1, signal.SIGKILL)
            try:
                res = run_concrete(r['property'], r['fn'], r['params'], r['inputs'], r.get('tier', 'quick'))
            except BaseException as e:
                res = {'status': 'error', 'detail': repr(e)[:300], 'obs': []}
            out.write(json.dumps(res) + '\n')
            out.flush()
            os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            out.write(json.dumps({'status': 'error', 'detail': 'replay process died', 'obs': []}) + '\n')
            out.flush()


class Replayer:
    """A persistent process running the unmodified sources."""
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', VERIF_REPO=REPO)
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'check.py'), '--concrete-server'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=VERIF)

    def run(self, req, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
            buf = b''
            end = time.time() + timeout
            while not buf.endswith(b'\n'):
                left = end - time.time()
                if left <= 0 or not _select.select([self.p.stdout], [], [], left)[0]:
                    self.stop()
                    return {'status': 'timeout', 'detail': f'no result within {timeout} s', 'obs': []}
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    self.stop()
                    return {'status': 'error', 'detail': 'replay process died', 'obs': []}
                buf += b
            return json.loads(buf)
        except (BrokenPipeError, OSError) as e:
            self.stop()
            return {'status': 'error', 'detail': repr(e), 'obs': []}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait(5)
            except Exception:
                pass
            self.p = None


# --------------------------------------------------------------------------------------------------
# Symbolic mode
# --------------------------------------------------------------------------------------------------

class Found(BaseException):
    """A counterexample candidate was found."""
    def __init__(self, label, inputs):
        self.label, self.inputs = label, inputs


class SymH:
    concrete = False

    def __init__(self, E, tier='quick', eager=False):
        from . import core, values
        self.E, self.core, self.v = E, core, values
        self.tier = tier
        self.eager = eager
        self.labels = {}
        self.unknown = {}
        self.obs = []

    def _fin(self, name, vals):
        E, v = self.E, self.v
        f = E.fin_input(name, vals)
        x = v.mknum(f, None)
        if self.eager and type(x) is v.SymInt:
            return x.concretise()
        return x

    def fin(self, name, *dom):
        vals = range(dom[0], dom[1] + 1) if len(dom) == 2 else dom[0]
        return self._fin(name, list(vals))

    def bool(self, name):
        E = self.E
        k = ('boolinput', name)
        l = E.memo.get(k)
        if l is None:
            l = E.newvar()
            E.add_group([l], [], [])
            E.memo[k] = l
        E.inputs[name] = ('bool', l)
        b = self.v.mkbool(l)
        return bool(b) if self.eager else b

    def int(self, name, lo=None, hi=None):
        tv = self.E.tvar(name, 'int', lo, hi)
        return self.v.mknum(None, self.core.P.var(tv.id))

    def real(self, name, lo=None, hi=None, halfopen=False):
        tv = self.E.tvar(name, 'real', lo, hi, data='halfopen' if halfopen else None)
        return self.v.SymReal(self.core.P.var(tv.id))

    def choice(self, name, seq):
        seq = list(seq)
        i = self._fin(name, range(len(seq)))
        if type(i) is not self.v.SymInt:
            return seq[i]
        return self.v.merge_or_fork([(l, seq[k]) for k, l in i.fin.items])

    def _lit(self, c):
        import numpy as np
        if isinstance(c, np.ndarray):
            from . import nd
            c = nd.f_all(nd.asarray(c))
        if isinstance(c, np.bool_):
            c = bool(c)
        return self.v.blit(c)

    def assume(self, c):
        self.E.assume(self._lit(c))

    def check(self, label, c):
        E = self.E
        l = self._lit(c)
        self.labels[label] = self.labels.get(label, 0) + 1
        if l == 1:
            E.stats.checks += 1
            E.stats.checks_trivial += 1
            return
        r = E.prove(l)
        if r == 1:
            raise Found(label, E.model_inputs())
        if r == 2:
            self.unknown[label] = self.unknown.get(label, 0) + 1
            return
        E.add_path(l)

    def eq(self, a, b):
        import numpy as np
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            from . import nd
            return nd.f_array_equal(a, b)
        if self.v.has_sym(a) or self.v.has_sym(b):
            return self.v.sym_eq(a, b)
        return a == b

    def all(self, cs):
        return self.v.mkbool(self.E.lit_and([self._lit(c) for c in cs]))

    def any(self, cs):
        return self.v.mkbool(self.E.lit_or([self._lit(c) for c in cs]))

    def not_(self, c):
        return self.v.mkbool(-self._lit(c))

    def implies(self, a, b):
        return self.v.mkbool(self.E.lit_or([-self._lit(a), self._lit(b)]))

    def iff(self, a, b):
        return self.v.mkbool(self.E.lit_iff(self._lit(a), self._lit(b)))

    def ite(self, c, a, b):
        l = self._lit(c)
        return self.v.merge_or_fork([(l, a), (-l, b)])

    def observe(self, label, x):
        self.obs.append((label, x))

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def freeze(self, *tables):
        fr = self.E.frozen

        def walk(x):
            if type(x) is list:
                if id(x) in fr:
                    return
                fr[id(x)] = x
                for y in x:
                    if type(y) in (list, tuple):
                        walk(y)
            elif type(x) is tuple:
                for y in x:
                    if type(y) is list:
                        walk(y)
        for t in tables:
            for v in vars(t).values():
                walk(v)


def sym_lits(x, E, out, tvs, depth=0):
    """Literals and theory variables occurring in a value."""
    import numpy as np
    from . import values as V
    t = type(x)
    if t is V.SymBool:
        out.add(abs(x.l))
    elif t is V.SymInt:
        if x.fin is not None:
            out.update(abs(l) for _, l in x.fin.items)
        if x.poly is not None:
            tvs.update(x.poly.vars())
    elif t is V.SymReal:
        tvs.update(x.poly.vars())
    elif isinstance(x, np.ndarray):
        for y in x.view(np.ndarray).reshape(-1):
            sym_lits(y, E, out, tvs, depth)
    elif t is V.SymRow:
        for l, r in x.alts:
            out.add(abs(l))
            sym_lits(r, E, out, tvs, depth)
    elif t in (list, tuple):
        for y in x:
            sym_lits(y, E, out, tvs, depth)
    elif t is dict:
        for k, v in x.items():
            sym_lits(k, E, out, tvs)
            sym_lits(v, E, out, tvs)
    elif dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            if f.compare:
                sym_lits(getattr(x, f.name), E, out, tvs, depth)


class Evaluator:
    """Evaluates symbolic values under the engine's last model."""
    def __init__(self, E, inputs):
        self.E = E
        self.inputs = inputs
        self.memo = {}

    def fin(self, f):
        for v, l in f.items:
            if self.E.litval(l):
                return v
        return f.items[0][0]

    def tv(self, i):
        if i in self.memo:
            return self.memo[i]
        tv = self.E.tvars[i]
        if tv.kind == 'input':
            v = self.inputs[tv.name]
            r = v if tv.sort == 'int' else Fraction(v[0], v[1])
        elif tv.kind == 'finval':
            r = self.fin(tv.data)
        elif tv.kind == 'ite':
            r = 0
            for l, p in tv.data:
                if self.E.litval(l):
                    r = self.poly(p)
                    break
        elif tv.kind == 'mod':
            r = self.poly(tv.data[0]) % tv.data[1]
        elif tv.kind == 'div':
            r = self.poly(tv.data[0]) // tv.data[1]
        elif tv.kind == 'quot':
            d = Fraction(self.poly(tv.data[1]))
            r = Fraction(self.poly(tv.data[0])) / d if d else Fraction(0)
        else:
            raise KeyError(tv.kind)
        self.memo[i] = r
        return r

    def poly(self, p):
        t = 0
        for m, c in p.t.items():
            x = c
            for i in m:
                x = x * self.tv(i)
            t += x
        return t

    def __call__(self, x):
        import numpy as np
        from . import values as V
        t = type(x)
        if t is V.SymBool:
            return self.E.litval(x.l)
        if t is V.SymInt:
            return (self.fin(x.fin) if x.fin is not None else 0) + (self.poly(x.poly) if x.poly is not None else 0)
        if t is V.SymReal:
            return Fraction(self.poly(x.poly))
        if isinstance(x, np.ndarray):
            o = np.empty(x.shape, dtype=object)
            p = x.view(np.ndarray)
            for i in np.ndindex(x.shape):
                o[i] = self(p[i])
            return o
        if t is V.SymRow:
            for l, r in x.alts:
                if self.E.litval(l):
                    return self(r)
            return None
        if t in (list, tuple):
            return t(self(y) for y in x)
        if t is dict:
            return {self(k): self(v) for k, v in x.items()}
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            return [type(x).__name__] + [self(getattr(x, f.name)) for f in dataclasses.fields(x) if f.compare]
        return x


def run_task(prop, task, tier, deadline, seed, eager=False, max_samples=6):
    """Explore one task symbolically. Returns a result dictionary."""
    from . import core
    t0 = time.time()
    E = core.Engine(deadline=deadline, z3_timeout=30000 if tier == 'quick' else 120000,
                    ext_timeout=600 if tier == 'quick' else 3000)
    h = SymH(E, tier, eager)
    mod = importlib.import_module('harness.' + prop.lower())
    fn = getattr(mod, task.fn)
    rep = Replayer()
    rnd = random.Random(seed * 1000003 + int(hashlib.sha256(task.name.encode()).hexdigest()[:8], 16))
    res = {'task': task.name, 'bound': task.bound, 'status': 'proved', 'validated': 0, 'samples': [], 'mismatch': []}
    cand = None
    state = {'exc': None, 'good': 0, 'sampled': 0, 'next': 1}

    def req(inputs):
        return {'property': prop, 'fn': task.fn, 'params': task.params, 'inputs': inputs, 'tier': tier}

    from . import state as st
    package = st.State('peyl')

    def body():
        state['exc'] = None
        h.obs = []
        package.restore(clear=eager)
        try:
            fn(h, **task.params)
        except Exception as e:
            state['exc'] = e

    def on_path(ok):
        if not ok:
            return False
        e = state['exc']
        if e is not None:
            r = E.solve(E.path)
            if r == 0:
                return False
            if r == 2:
                h.unknown['exception'] = h.unknown.get('exception', 0) + 1
                state.setdefault('excs', []).append(repr(e)[:200])
                return False
            tb = ''.join(traceback.format_exception(e)[-6:])
            f = Found(f'exception:{type(e).__name__}', E.model_inputs())
            f.tb = tb
            raise f
        state['good'] += 1
        # sample some paths: replay the model on the unmodified sources and compare the observations
        if state['sampled'] < max_samples and state['good'] >= state['next']:
            state['next'] = state['good'] * 3 if state['good'] > 2 else state['good'] + 1
            lits, tvs = set(), set()
            for _, x in h.obs:
                sym_lits(x, E, lits, tvs)
            todo = list(tvs)
            seen = set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                bs, vs = E._tvar_deps(E.tvars[i])
                lits.update(bs)
                todo.extend(vs)
            lits.discard(1)
            r = E.solve(E.path, extra=lits)
            if r == 0:
                raise core.EngineError('path became infeasible')
            if r == 1:
                state['sampled'] += 1
                inputs = E.model_inputs()
                ev = Evaluator(E, inputs)
                obs = [[lab, norm(ev(x))] for lab, x in h.obs]
                out = rep.run(req(inputs))
                if out['status'] == 'pass':
                    cobs = out['obs']
                    if json.loads(json.dumps(obs)) == cobs:
                        res['validated'] += 1
                    else:
                        res['mismatch'].append({'inputs': inputs, 'symbolic': obs, 'concrete': cobs})
                elif out['status'] in ('fail', 'timeout'):
                    f = Found('replay:' + out.get('label', out['status']), inputs)
                    raise f
                else:
                    res['mismatch'].append({'inputs': inputs, 'replay': out})
                if len(res['samples']) < 2:
                    res['samples'].append({'inputs': {k: (v if abs(v) < 10**15 else str(v)) if isinstance(v, int) else v for k, v in inputs.items()}, 'observations': len(obs), 'replayed': out['status']})
        return False

    def on_alarm(sig, frame):
        raise core.BudgetExceeded('time limit')

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time()), 5.0)
    try:
        E.explore(body, on_path)
        if state['good'] == 0:
            res['status'] = 'vacuous'
        elif not h.labels:
            res['status'] = 'vacuous'
    except Found as f:
        cand = f
    except core.BudgetExceeded as e:
        res['status'] = 'incomplete'
        res['detail'] = str(e)
        # a hang of the code under test? replay a model of the current path with a short limit
        try:
            signal.setitimer(signal.ITIMER_REAL, 60)
            core.cur = E
            E.deadline = time.time() + 30
            if state['good'] == 0 and E.stats.paths <= 3 and E.solve(E.path) == 1:
                cand = Found('timeout', E.model_inputs())
        except BaseException:
            pass
    except core.EngineError as e:
        res['status'] = 'incomplete'
        res['detail'] = 'engine: ' + str(e)
    except MemoryError:
        res['status'] = 'incomplete'
        res['detail'] = 'memory'
    except RecursionError:
        res['status'] = 'incomplete'
        res['detail'] = 'recursion'
    finally:
        core.cur = None
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
        except BaseException:
            pass
    if cand is not None:
        out = rep.run(req(cand.inputs), timeout=60)
        if out['status'] in ('fail', 'timeout'):
            if out['status'] == 'timeout' and cand.label != 'timeout' and not cand.label.startswith('exception'):
                pass
            res['status'] = 'violated'
            res['cex'] = {'property': prop, 'task': task.name, 'fn': task.fn, 'params': task.params, 'inputs': cand.inputs,
                          'label': cand.label, 'concrete': {k: out.get(k) for k in ('status', 'label', 'detail')}, 'tier': tier}
        else:
            res['status'] = 'incomplete'
            res['detail'] = f'candidate {cand.label} not reproduced concretely ({out["status"]} {out.get("detail", "")})'
            res['spurious'] = {'label': cand.label, 'inputs': {k: v if not isinstance(v, int) or abs(v) < 10**15 else str(v) for k, v in cand.inputs.items()}, 'tb': getattr(cand, 'tb', '')[-1500:]}
    if res['status'] == 'proved' and (h.unknown or E.stats.incomplete):
        res['status'] = 'incomplete'
        res['detail'] = f'unknown: {dict(h.unknown)} cut: {E.stats.incomplete} {state.get("excs", "")}'
    if res['mismatch'] and res['status'] == 'proved':
        res['status'] = 'mismatch'
    rep.stop()
    s = E.stats
    res.update(paths=s.paths, feasible_paths=state['good'], decisions=s.decisions, sat_queries=s.sat_queries, z3_queries=s.z3_queries,
               ext_queries=s.ext_queries, solver_s=round(s.solver_time, 3), wall_s=round(time.time() - t0, 3),
               checks=s.checks, checks_trivial=s.checks_trivial, labels=dict(h.labels), variables=E.nv)
    return res


# --------------------------------------------------------------------------------------------------
# Function coverage of the sources (which functions were encoded)
# --------------------------------------------------------------------------------------------------

def functions_seen():
    from . import instrument
    return sorted(instrument.CALLED)


# --------------------------------------------------------------------------------------------------
# Master
# --------------------------------------------------------------------------------------------------

def worker(prop, task, tier, deadline, seed, wfd):
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        sys.setrecursionlimit(20000)
        try:
            res = run_task(prop, task, tier, deadline, seed)
            if res['status'] in ('incomplete', 'mismatch') and 'cex' not in res and time.time() < deadline - 5 and \
                    (res['status'] == 'mismatch' or 'detail' in res and ('engine' in res['detail'] or 'candidate' in res['detail'] or 'unknown' in res['detail'])):
                # the encoding did not carry: fall back to solver-driven enumeration of the finite inputs
                end = min(deadline, time.time() + 60)
                r2 = run_task(prop, task, tier, end, seed, eager=True)
                if r2['status'] in ('violated', 'proved'):
                    r2['fallback'] = 'inputs concretised: ' + str(res.get('detail', res['status']))
                    r2['first'] = {k: res.get(k) for k in ('status', 'detail', 'spurious', 'mismatch')}
                    res = r2
                else:
                    res['fallback_paths'] = r2.get('feasible_paths')
            res['functions'] = functions_seen()
        except BaseException as e:
            res = {'task': task.name, 'bound': task.bound, 'status': 'error', 'detail': ''.join(traceback.format_exception(e))[-2000:]}
        with os.fdopen(wfd, 'w') as fh:
            fh.write(json.dumps(res, default=str))
    finally:
        os._exit(0)


def main_check(prop, tier, seed, jobs=8, only=None, total=None, verbose=False):
    t0 = time.time()
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    sys.path[:0] = [VERIF]
    from . import satmod_build
    satmod_build()
    from . import instrument
    instrument.install(REPO, 'peyl')
    instrument.install(VERIF, 'harness')
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('harness.' + prop.lower())
    importlib.import_module('z3')
    tasks = [t for t in mod.tasks(tier) if tier != 'quick' or t.base]
    if only:
        tasks = [t for t in tasks if any(t.name == o or t.name.startswith(o) for o in only)]
    total = total or (780 if tier == 'quick' else int(os.environ.get('VERIF_THOROUGH_S', '3000')))
    deadline = t0 + total
    running, results, queue = {}, [], list(tasks)
    violation = None

    def launch():
        task = queue.pop(0)
        r, w = os.pipe()
        dl = min(deadline, time.time() + (task.timeout or (300 if tier == 'quick' else 1500)))
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for other in running:
                os.close(other)
            worker(prop, task, tier, dl, seed, w)
        os.close(w)
        running[r] = (pid, task, [], dl)

    def kill(pid):
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass

    while (queue or running) and violation is None:
        while queue and len(running) < jobs and time.time() < deadline - 2:
            launch()
        if not running:
            break
        rs, _, _ = _select.select(list(running), [], [], 1.0)
        for r in rs:
            b = os.read(r, 1 << 20)
            pid, task, buf, dl = running[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            del running[r]
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            kill(pid) if False else None
            try:
                res = json.loads(b''.join(buf))
            except ValueError:
                res = {'task': task.name, 'bound': task.bound, 'status': 'error', 'detail': 'worker died'}
            results.append(res)
            if verbose:
                print(f"  {res['task']}: {res['status']} paths={res.get('paths')} checks={res.get('checks')} vars={res.get('variables')} solver={res.get('solver_s')}s wall={res.get('wall_s')}s validated={res.get('validated')} {res.get('detail', '')} {res.get('fallback', '')}", flush=True)
                if res.get('spurious') or res.get('mismatch'):
                    print('   ', json.dumps(res.get('spurious') or res.get('mismatch')[:1])[:3000])
                if res.get('first'):
                    print('   first', json.dumps(res['first'])[:3000])
            if res['status'] == 'violated':
                violation = confirm(prop, res)
                if violation is None:
                    res['status'] = 'incomplete'
                    res['detail'] = 'violation not confirmed in a fresh process'
        for r, (pid, task, buf, dl) in list(running.items()):
            if time.time() > dl + 130:
                kill(pid)
    for r, (pid, task, buf, dl) in running.items():
        kill(pid)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        results.append({'task': task.name, 'bound': task.bound, 'status': 'not finished'})
    for t in queue:
        results.append({'task': t.name, 'bound': t.bound, 'status': 'not run'})
    code = finish(prop, mod, tier, seed, results, violation, time.time() - t0)
    return code


def confirm(prop, res):
    """Replay the counterexample in a fresh process on the unmodified sources; returns the replay path."""
    os.makedirs(REPLAYS, exist_ok=True)
    name = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in f'{prop}-{res["task"]}')
    path = os.path.join(REPLAYS, name + '.json')
    with open(path, 'w') as fh:
        json.dump(res['cex'], fh, indent=1, default=str)
    r = Replayer()
    out = r.run({k: res['cex'][k] for k in ('property', 'fn', 'params', 'inputs', 'tier')}, timeout=90)
    r.stop()
    if out['status'] in ('fail', 'timeout'):
        print(f'{prop} {res["task"]}: {out.get("label", "")} {out.get("detail", "")}')
        print(f'  inputs: {json.dumps(res["cex"]["inputs"])[:1500]}')
        return path
    return None


def finish(prop, mod, tier, seed, results, violation, wall):
    done = [r for r in results if r['status'] == 'proved']
    bad = [r for r in results if r['status'] not in ('proved', 'violated')]
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    cov = {
        'states': max(1, tot('feasible_paths')) if done else tot('feasible_paths'),
        'transitions': tot('decisions') + tot('checks'),
        'traces_validated_against_impl': tot('validated'),
        'samples': [{'task': r['task'], **s} for r in results for s in r.get('samples', [])][:8],
        'states_meaning': 'feasible symbolic paths, each covering all values of its symbolic inputs',
        'transitions_meaning': 'solver-decided branches and assertions',
        'functions_encoded': funcs,
        'bounds': {r['task']: r.get('bound', '') for r in results},
        'outside': getattr(mod, 'OUTSIDE', ''),
        'tasks': [{k: r.get(k) for k in ('task', 'status', 'detail', 'fallback', 'paths', 'feasible_paths', 'checks', 'checks_trivial', 'labels', 'sat_queries', 'z3_queries', 'ext_queries', 'solver_s', 'wall_s', 'validated', 'variables') if r.get(k) is not None} for r in results],
        'tasks_proved': len(done), 'tasks_total': len(results),
        'queries': {'minisat': tot('sat_queries'), 'z3': tot('z3_queries'), 'kissat': tot('ext_queries')},
        'solver_s': round(tot('solver_s'), 2),
        'exhaustive_within_bounds': not bad and violation is None,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if violation:
        print(f'VIOLATION property={prop} replay={violation}')
        return 1
    for r in bad:
        print(f'INCONCLUSIVE {prop} {r["task"]}: {r["status"]} {str(r.get("detail", ""))[-400:]}')
    print(f'{prop} {tier}: {len(done)}/{len(results)} tasks proved within bounds, {cov["states"]} paths, {tot("checks")} assertions, '
          f'{cov["queries"]} solver {cov["solver_s"]} s, replayed {cov["traces_validated_against_impl"]}, wall {wall:.1f} s')
    if not done:
        return 2
    return 0
