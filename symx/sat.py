"""ctypes wrapper around the system minisat library (built on demand from sat.cpp) and external SAT back ends."""
import array
import ctypes
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')

_lib = None


def build(force=False):
    """Compile sat.cpp; returns the path of the shared object."""
    src = os.path.join(HERE, 'sat.cpp')
    out = os.path.join(BUILD, '_sat.so')
    if not force and os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix='.so', dir=BUILD)
    os.close(fd)
    subprocess.run(['g++', '-O2', '-fPIC', '-shared', '-std=c++11', '-w', '-D__STDC_LIMIT_MACROS',
                    '-D__STDC_FORMAT_MACROS', src, '-o', tmp, '-lminisat'], check=True)
    os.replace(tmp, out)
    return out


def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(build())
        l.sx_new.restype = ctypes.c_void_p
        l.sx_free.argtypes = [ctypes.c_void_p]
        l.sx_add.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
        l.sx_solve.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int64]
        l.sx_val.argtypes = [ctypes.c_void_p, ctypes.c_int]
        l.sx_model.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
        l.sx_stat.argtypes = [ctypes.c_void_p, ctypes.c_int]
        l.sx_stat.restype = ctypes.c_int64
        l.sx_decide.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        l.sx_setpol.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
        l.sx_fixed.argtypes = [ctypes.c_void_p, ctypes.c_int]
        _lib = l
    return _lib


class Minisat:
    """Incremental SAT solver; literals are non-zero ints as in DIMACS."""

    def __init__(self):
        self.l = lib()
        self.p = self.l.sx_new()
        self.pending = array.array('i')

    def __del__(self):
        try:
            if self.p:
                self.l.sx_free(self.p)
                self.p = None
        except Exception:
            pass

    def add(self, clause):
        self.pending.extend(clause)
        self.pending.append(0)

    def flush(self):
        if self.pending:
            a = self.pending
            self.l.sx_add(self.p, a.buffer_info()[0], len(a))
            self.pending = array.array('i')

    def solve(self, assumptions, conflicts=-1):
        """1 sat, 0 unsat, 2 unknown (conflict budget exhausted)."""
        self.flush()
        a = array.array('i', assumptions)
        return self.l.sx_solve(self.p, a.buffer_info()[0], len(a), conflicts)

    def model(self, nvars):
        buf = (ctypes.c_int8 * (nvars + 1))()
        self.l.sx_model(self.p, buf, nvars)
        return buf      # buf[v-1] in (0, 1)

    def stat(self, k):
        return self.l.sx_stat(self.p, k)


def external_solvers():
    out = []
    for c in ('kissat', '/app/lean4-4.33.0/build/release/stage1/bin/cadical', 'cadical'):
        w = shutil.which(c)
        if w:
            out.append(w)
    return out


_ext = None


def solve_external(nvars, clauses, units, timeout, tmpdir=None):
    """Solve with an external CDCL solver on the cone reachable from the units.
    Returns (result, model|None, name): result 1/0/2."""
    global _ext
    if _ext is None:
        _ext = external_solvers()
    if not _ext:
        return 2, None, None
    fd, fn = tempfile.mkstemp(suffix='.cnf', dir=tmpdir)
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write(f'p cnf {nvars} {len(clauses) + len(units)}\n')
            fh.writelines(' '.join(map(str, c)) + ' 0\n' for c in clauses)
            fh.writelines(f'{u} 0\n' for u in units)
        try:
            p = subprocess.run([_ext[0], '-q', fn], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 2, None, _ext[0]
        if p.returncode == 20:
            return 0, None, _ext[0]
        if p.returncode == 10:
            model = {}
            for line in p.stdout.splitlines():
                if line.startswith('v'):
                    for x in line[1:].split():
                        x = int(x)
                        if x:
                            model[abs(x)] = x > 0
            return 1, model, _ext[0]
        return 2, None, _ext[0]
    finally:
        os.unlink(fn)
