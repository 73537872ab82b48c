"""P22: the Python front end (interfaces/python/ConexProgram.py) against the library.

The class in /repo is loaded as it is (its Python 2 print statements become
calls) on top of a stand-in for the module SWIG would generate: the functions and
structures of interfaces/conex.h, with the numpy typemaps that
interfaces/python/conex.i names, called through ctypes on the library built from
/repo.  Every call is watched (array shapes, buffer sizes, lifetimes), and every
answer is compared bit for bit with that of the C interface driven directly with
the caller's numbers.
"""
import ctypes
import hashlib
import json
import os
import random
import re
import signal
import sys
import types
import warnings

import numpy as np

warnings.simplefilter("ignore")
REPO = os.environ["CONEX_P22_REPO"]
LIB = os.environ["CONEX_P22_LIB"]

# ---------------------------------------------------------------------------
# conex.h and conex.i

CTYPES = {"int": ctypes.c_int, "double": ctypes.c_double, "CONEX_STATUS": ctypes.c_int}


def strip_comments(text):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)


class Header:
    def __init__(self):
        text = strip_comments(open(os.path.join(REPO, "interfaces/conex.h")).read())
        self.structs = {}
        for body, name in re.findall(r"typedef\s+struct\s*\{(.*?)\}\s*(\w+)\s*;", text, flags=re.S):
            fields = [(f, CTYPES[t]) for t, f in re.findall(r"(\w+)\s+(\w+)\s*;", body)]
            self.structs[name] = type(name, (ctypes.Structure,), {"_fields_": fields})
        self.functions = {}
        for ret, star, name, args in re.findall(r"\b(void|int|CONEX_STATUS)\s*(\*?)\s*(CONEX_\w+)\s*\((.*?)\)\s*;",
                                                text, flags=re.S):
            params = []
            for a in args.split(","):
                a = " ".join(a.replace("*", " * ").split())
                if a in ("", "void"):
                    continue
                words = a.split(" ")
                if words[-1] == "*":
                    words.append("")
                params.append((" ".join(words[:-1]).replace("const ", ""), words[-1]))
            self.functions[name] = (ret + star, params)
        # %apply (double* IN_FARRAY2, int DIM1, int DIM2) {(const double* A, int Ar, int Ac)}
        self.typemaps = {}
        for kind, target in re.findall(r"%apply\s*\(\s*\w+\s*\*\s*(\w+)[^)]*\)\s*\{\s*\((.*?)\)\s*\}",
                                       strip_comments(open(os.path.join(REPO, "interfaces/python/conex.i")).read()),
                                       flags=re.S):
            key = []
            for a in target.split(","):
                a = " ".join(a.replace("*", " * ").split()).split(" ")
                key.append((" ".join(a[:-1]).replace("const ", ""), a[-1]))
            self.typemaps[tuple(key)] = kind


HEADER = Header()
SO = ctypes.CDLL(LIB)
LIBC = ctypes.CDLL(None)  # estimates of Hermitian eigenvalues start from rand()


def c_type(t):
    if t in CTYPES:
        return CTYPES[t]
    if t == "double *":
        return ctypes.POINTER(ctypes.c_double)
    if t == "long *":
        return ctypes.POINTER(ctypes.c_long)
    if t == "int *":
        return ctypes.POINTER(ctypes.c_int)
    if t == "void *":
        return ctypes.c_void_p
    name = t.replace(" *", "")
    return ctypes.POINTER(HEADER.structs[name])


FN = {}
for _name, (_ret, _params) in HEADER.functions.items():
    _f = getattr(SO, _name)
    _f.restype = {"void": None, "void*": ctypes.c_void_p}.get(_ret, ctypes.c_int)
    _f.argtypes = [c_type(t) for t, _ in _params]
    FN[_name] = _f


class Monitor:
    """What the calls that cross the boundary must satisfy."""

    def __init__(self):
        self.live, self.dead, self.calls, self.problems = set(), set(), {}, []
        self.refused = 0

    def before(self, name, args):
        self.calls[name] = self.calls.get(name, 0) + 1
        if name == "CONEX_CreateConeProgram":
            return
        p = args[0]
        if HEADER.functions[name][1][0][0] == "void *" and p not in self.live:
            self.problems.append(("lifetime", "%s on a program that was never made or is deleted" % name))
        if name == "CONEX_DeleteConeProgram":
            self.live.discard(p)
        if name == "CONEX_GetDualVariable" and p in self.live:
            i, rows, cols = args[1], args[3], args[4]
            size = FN["CONEX_GetDualVariableSize"](p, i)
            if rows * cols != size:
                self.problems.append(("dual-buffer", "dual variable %d has %d entries; the buffer has %d x %d"
                                      % (i, size, rows, cols)))
                return "skip"

    def after(self, name, args, result):
        if name == "CONEX_CreateConeProgram":
            self.live.add(result)


MONITOR = Monitor()


class SwigError(TypeError):
    pass


def typemap(kind, value):
    """The arguments numpy.i makes of a value; a function to run afterwards."""
    element = None
    if kind.startswith("INPLACE"):
        if not isinstance(value, np.ndarray):
            raise SwigError("Array of type required; got %s" % type(value))
        a = value
    else:
        a = np.array(value, dtype=np.float64, order="F" if "FARRAY" in kind else "C")
    dims = int(kind[-1])
    if a.ndim != dims:
        raise SwigError("Array must have %d dimensions. Given array has %d dimensions" % (dims, a.ndim))
    if kind == "INPLACE_ARRAY1":
        if a.dtype not in (np.dtype("float64"), np.dtype("int64")) or not a.flags.c_contiguous:
            raise SwigError("Array of the right type, contiguous, required")
        element = ctypes.c_long if a.dtype == np.dtype("int64") else ctypes.c_double
        return [a.ctypes.data_as(ctypes.POINTER(element)), a.shape[0]], None, a
    if kind == "INPLACE_FARRAY2":
        if a.dtype != np.dtype("float64"):
            raise SwigError("Array of doubles required")
        # require_fortran: the same memory, read column by column afterwards.
        buf = np.array(a, order="C").reshape(-1).copy()

        def back():
            a[...] = buf.reshape(a.shape, order="F")
        return [buf.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), a.shape[0], a.shape[1]], back, buf
    if kind in ("IN_ARRAY1", "IN_FARRAY2", "IN_FARRAY3"):
        return [a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))] + list(a.shape), None, a
    raise SwigError("no typemap " + kind)


class intp:
    def __init__(self):
        self.box = ctypes.c_int(0)

    def value(self):
        return self.box.value


def wrap(name):
    ret, params = HEADER.functions[name]

    def call(*given):
        given = list(given)
        args, keep, afterwards = [], [], []
        k = 0
        while k < len(params):
            hit = None
            for n in (4, 3, 2):
                hit = HEADER.typemaps.get(tuple(params[k:k + n]))
                if hit and k + n <= len(params):
                    break
            if not given:
                raise SwigError("%s: too few arguments" % name)
            value = given.pop(0)
            if hit:
                made, back, hold = typemap(hit, value)
                keep.append(hold)
                if back:
                    afterwards.append(back)
                if params[k][0] == "long *" and not isinstance(made[0], ctypes.POINTER(ctypes.c_long)):
                    raise SwigError("Array of longs required")
                if params[k][0] == "double *" and not isinstance(made[0], ctypes.POINTER(ctypes.c_double)):
                    raise SwigError("Array of doubles required")
                if len(made) != n:
                    raise SwigError("%s: %s does not fit" % (name, hit))
                args += made
                k += n
                continue
            t = params[k][0]
            if t == "int":
                args.append(value.__index__())
            elif t == "double":
                args.append(float(value))
            elif t == "int *" and isinstance(value, intp):
                keep.append(value)
                args.append(ctypes.byref(value.box))
            elif t == "void *":
                args.append(value)
            elif isinstance(value, ctypes.Structure):
                keep.append(value)
                args.append(ctypes.byref(value))
            else:
                raise SwigError("%s: argument of type '%s' expected" % (name, t))
            k += 1
        if given:
            raise SwigError("%s: too many arguments" % name)
        if MONITOR.before(name, args) == "skip":
            return None
        result = FN[name](*args)
        MONITOR.after(name, args, result)
        for f in afterwards:
            f()
        return result
    return call


def load_front_end():
    module = types.ModuleType("conex")
    for name in HEADER.functions:
        setattr(module, name, wrap(name))
    for name, s in HEADER.structs.items():
        setattr(module, name, s)
    module.intp = intp
    sys.modules["conex"] = module
    path = os.path.join(REPO, "interfaces/python/ConexProgram.py")
    text = open(path).read()
    text = re.sub(r"(?m)^([ \t]*)print[ \t]+(?!\()([^\n#]*?),?[ \t]*$", r"\1print(\2)", text)
    front = types.ModuleType("ConexProgram")
    front.print = lambda *a, **k: None
    exec(compile(text, path, "exec"), front.__dict__)
    return front


FRONT = load_front_end()

# ---------------------------------------------------------------------------
# The reference: the C interface with the caller's numbers.


def dp(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))


def fortran(a):
    return np.array(a, dtype=np.float64, order="F")


class Reference:
    def __init__(self, m):
        self.p = FN["CONEX_CreateConeProgram"]()
        self.m = m
        FN["CONEX_SetNumberOfVariables"](self.p, m)
        self.count = 0      # constraints of the library
        self.ids = []       # library index of each constraint that is not a cost
        self.wrong = []     # indices that do not count

    def close(self):
        FN["CONEX_DeleteConeProgram"](self.p)

    def linear(self, A, c):
        A, c = fortran(A), fortran(c)
        self.ids.append(FN["CONEX_AddDenseLinearConstraint"](self.p, dp(A), A.shape[0], A.shape[1], dp(c), len(c)))
        self.expect(self.ids[-1])

    def two_sided(self, A, lb, ub):
        A, lb, ub = fortran(A), fortran(lb), fortran(ub)
        i = FN["CONEX_AddLinearInequalities"](self.p, dp(A), A.shape[0], A.shape[1], dp(lb), len(lb), dp(ub), len(ub))
        equal = lb == ub
        some = bool(np.any(~equal & ((lb > -1e8) | (ub < 1e8))))
        pieces = some + bool(np.any(equal))
        if pieces:
            self.ids.append(i)
        self.expect(i if pieces else None, pieces)
        return pieces > 0

    def expect(self, i, pieces=1):
        # Constraints and costs are numbered in the order they are added.
        if i is not None and i != self.count:
            self.wrong.append((i, self.count))
        self.count += pieces

    def lmi(self, mats, c):
        flat = np.concatenate([fortran(x).reshape(-1, order="F") for x in mats])
        c = fortran(c)
        n = c.shape[0]
        self.ids.append(FN["CONEX_AddDenseLMIConstraint"](self.p, dp(flat), n, n, len(mats), dp(c), n, n))
        self.expect(self.ids[-1])

    def sparse(self, mats, c, variables):
        flat = np.concatenate([fortran(x).reshape(-1, order="F") for x in mats])
        c = fortran(c)
        n = c.shape[0]
        v = (ctypes.c_long * len(variables))(*[int(x) for x in variables])
        self.ids.append(FN["CONEX_AddSparseLMIConstraint"](self.p, dp(flat), n, n, len(mats), dp(c), n, n, v,
                                                           len(variables)))
        self.expect(self.ids[-1])

    def cost(self, Q):
        Q = fortran(Q)
        self.expect(None)
        return FN["CONEX_AddQuadraticCost"](self.p, dp(Q), Q.shape[0], Q.shape[1])

    def new(self, function, *args):
        i = ctypes.c_int(-1)
        if FN[function](self.p, *(list(args) + [ctypes.byref(i)])):
            return None
        self.expect(i.value)
        return i.value

    def dual(self, i):
        x = np.zeros(FN["CONEX_GetDualVariableSize"](self.p, i))
        FN["CONEX_GetDualVariable"](self.p, i, dp(x), len(x), 1)
        return x

    def run(self, b, cfg):
        y = np.ones(self.m)
        if b is None:
            s = FN["CONEX_Solve"](self.p, ctypes.byref(cfg), dp(y), self.m)
        else:
            b = np.array(b, dtype=np.float64).reshape(-1).copy()
            s = FN["CONEX_Maximize"](self.p, dp(b), self.m, ctypes.byref(cfg), dp(y), self.m)
        return s, y

    def stats(self, k):
        st = HEADER.structs["CONEX_IterationStats"]()
        FN["CONEX_GetIterationStats"](self.p, ctypes.byref(st), k)
        return st.mu, st.iteration_number


# ---------------------------------------------------------------------------
# Cases

class Column(np.matrix):
    """A column that gives numbers for integer subscripts, as the numpy of the
    front end's time converted 1 x 1 matrices to numbers."""

    def __getitem__(self, k):
        r = np.matrix.__getitem__(self, k)
        return float(np.asarray(r).reshape(-1)[0]) if isinstance(k, (int, np.integer)) else r


class Ctx:
    def __init__(self, d, scenario, index, seed, thorough, replay):
        self.d, self.scenario, self.index, self.thorough, self.replay = d, scenario, index, thorough, replay
        h = hashlib.sha256(("%d/%s/%d" % (seed, scenario, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))

    def violate(self, key, msg):
        n = self.d.per_key[key] = self.d.per_key.get(key, 0) + 1
        if n <= 5 or self.replay:
            self.d.line(dict(t="violation", scenario=self.scenario, case=self.index, key=key, msg=msg))

    def count(self, name, n=1):
        self.d.counts[name] = self.d.counts.get(name, 0) + n

    def maximum(self, name, v):
        self.d.maxima[name] = max(self.d.maxima.get(name, 0.0), float(v))

    def check(self, ok, key, msg):
        self.count("monitor_evaluations")
        if not ok:
            self.violate(key, msg)
        return ok

    def matrix(self, r, c):
        return np.array([[self.rng.gauss(0, 1) for _ in range(c)] for _ in range(r)])

    def sym(self, n):
        a = self.matrix(n, n)
        return (a + a.T) / 2


def same(a, b):
    a, b = np.asarray(a, dtype=float).reshape(-1), np.asarray(b, dtype=float).reshape(-1)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def disguise(c, a):
    """The same numbers in another form a caller may use."""
    a = np.array(a, dtype=float)
    k = c.rng.randint(0, 5)
    c.count("form:%d" % k)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim == 2:
        return np.matrix(a)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape))
        view = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        view[...] = a
        return view
    if k == 3:
        return a[::-1].copy()[::-1]
    if k == 4 and a.ndim == 2:
        return np.ascontiguousarray(a.T).T
    return a


def random_config(c, prog):
    k = c.rng.randint(0, 2)
    if k == 0:
        return [], prog.DefaultConfiguration()
    made = []
    changes = {}
    if c.rng.random() < .6:
        changes["inv_sqrt_mu_max"] = float(c.rng.choice([10, 100, 1000, 3000]))
    if c.rng.random() < .5:
        changes["max_iterations"] = c.rng.randint(1, 60)
    if c.rng.random() < .5:
        changes["final_centering_steps"] = c.rng.randint(0, 6)
    if c.rng.random() < .5:
        changes["iterative_refinement_iterations"] = c.rng.randint(0, 3)
    if c.rng.random() < .4:
        changes["kkt_solver"] = c.rng.randint(0, 2)
    if c.rng.random() < .5:
        changes["prepare_dual_variables"] = c.rng.randint(0, 1)
    if c.rng.random() < .4:
        changes["divergence_upper_bound"] = c.rng.uniform(.5, 3)
    for _ in range(2):
        cfg = prog.DefaultConfiguration()
        for f, v in changes.items():
            setattr(cfg, f, v)
        made.append(cfg)
    return made


def add_pair(c, prog, ref, kind, m, data):
    """Adds one item to both; data records what ComputeErrors must see."""
    if kind == "linear":
        n = c.rng.choice([1, 1, 2, 3, 5, 9])
        A, rhs = c.matrix(n, m), np.array([c.rng.uniform(.5, 2) for _ in range(n)])
        given = disguise(c, rhs)
        if c.rng.random() < .25:
            given = np.matrix(rhs).transpose()
            c.count("right hand side as a column")
        prog.AddLinearInequality(disguise(c, A), given)
        ref.linear(A, rhs)
        data.append(("linear", A, rhs))
    elif kind == "two_sided":
        n = c.rng.choice([1, 2, 3, 5])
        A = c.matrix(n, m)
        ub = np.array([c.rng.uniform(.5, 2) if c.rng.random() < .7 else 1e9 for _ in range(n)])
        lb = np.array([-c.rng.uniform(.5, 2) if c.rng.random() < .7 else -1e9 for _ in range(n)])
        if m > 1 and "equality" not in data and c.rng.random() < .3:
            lb[0] = ub[0] = c.rng.uniform(-.2, .2)
            data.append("equality")
            c.count("two sided with an equality")
        prog.AddLinearInequalities(disguise(c, A), disguise(c, lb), disguise(c, ub))
        if not ref.two_sided(A, lb, ub):
            c.count("two sided without a bound")
        data.append(("two_sided",))
    elif kind == "lmi":
        n = c.rng.choice([1, 2, 3, 4])
        mats, rhs = [c.sym(n) for _ in range(m)], np.eye(n) * c.rng.uniform(.5, 2)
        A3 = np.zeros((n, n, m))
        for i in range(m):
            A3[:, :, i] = mats[i]
        prog.AddDenseLinearMatrixInequality(disguise(c, A3), disguise(c, rhs))
        ref.lmi(mats, rhs)
        data.append(("lmi", mats, rhs, list(range(m))))
    elif kind == "sparse":
        k = c.rng.randint(1, m)
        variables = c.rng.sample(range(m), k)
        n = c.rng.choice([1, 2, 3, 4])
        mats, rhs = [c.sym(n) for _ in range(k)], np.eye(n) * c.rng.uniform(.5, 2)
        A3 = np.zeros((n, n, k))
        for i in range(k):
            A3[:, :, i] = mats[i]
        prog.AddSparseLinearMatrixInequality(disguise(c, A3), disguise(c, rhs),
                                             c.rng.choice([np.array(variables), np.array(variables, dtype=np.int32)]))
        ref.sparse(mats, rhs, variables)
        data.append(("lmi", mats, rhs, variables))
    elif kind == "cost":
        B = c.matrix(m, m)
        Q = B @ B.T + .1 * np.eye(m)
        prog.AddQuadraticCost(disguise(c, Q))
        ref.cost(Q)
    elif kind == "new_cost":
        i = prog.NewQuadraticCost()
        j = ref.new("CONEX_NewQuadraticCost")
        c.check(i == j, "id", "NewQuadraticCost returned %s; the library's index is %s" % (i, j))
        for v in range(m):
            q = c.rng.uniform(.2, 2)
            prog.UpdateQuadraticCostMatrix(i, q, v, v)
            FN["CONEX_UpdateQuadraticCostMatrix"](ref.p, j, q, v, v)
    else:
        dim = 1
        if kind == "new_lmi":
            dim = c.rng.choice([1, 1, 2, 4, 8])
            n = c.rng.randint(1, 3 if dim == 8 else 4)
            i = prog.NewLinearMatrixInequality(n, dim)
            j = ref.new("CONEX_NewLinearMatrixInequality", n, dim)
            entries = [(r, col, h) for r in range(n) for col in range(r + 1) for h in range(dim)
                       if h == 0 or r != col]
            affine = [(r, r, 0) for r in range(n)]
        elif kind == "new_soc":
            n = c.rng.randint(1, 5)
            i = prog.NewLorentzConeConstraint(n)
            j = ref.new("CONEX_NewLorentzConeConstraint", n)
            entries = [(r, 0, 0) for r in range(n + 1)]
            affine = [(0, 0, 0)]
        else:
            n = c.rng.randint(1, 5)
            i = prog.NewLinearInequality(n)
            j = ref.new("CONEX_NewLinearInequality", n)
            entries = [(r, 0, 0) for r in range(n)]
            affine = entries
        c.check(i == j, "id", "%s returned %s; the library's index is %s" % (kind, i, j))
        for (r, col, h) in affine:
            v = c.rng.uniform(.8, 2)
            if kind == "new_lmi":
                v = 1.0
            prog.UpdateAffineTerm(i, v, r, col, h)
            FN["CONEX_UpdateAffineTerm"](ref.p, j, v, r, col, h)
        for (r, col, h) in entries:
            for var in range(m):
                if c.rng.random() < .7:
                    v = c.rng.choice([c.rng.gauss(0, 1), np.float64(c.rng.gauss(0, 1)), c.rng.randint(-2, 2)])
                    prog.UpdateLinearOperator(i, v, var, r, col, h)
                    FN["CONEX_UpdateLinearOperator"](ref.p, j, float(v), var, r, col, h)
        ref.ids.append(j)
        data.append(("new",))


class Pair:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.prog, self.ref, self.data, self.kinds = FRONT.Conex(m), Reference(m), [], []

    def add(self, kind):
        add_pair(self.c, self.prog, self.ref, kind, self.m, self.data)
        self.kinds.append(kind)

    def bound(self):
        """Rows that keep the feasible set bounded."""
        m = self.m
        A, rhs = np.vstack([np.eye(m), -np.eye(m)]), np.full(2 * m, 3.0)
        self.prog.AddLinearInequality(disguise(self.c, A), rhs)
        self.ref.linear(A, rhs)
        self.data.append(("linear", A, rhs))
        self.kinds.append("linear")

    def solve(self, quadratic):
        c = self.c
        mine, other = random_config(c, self.prog)
        b = None
        if quadratic:
            other.enable_line_search, other.enable_rescaling = 1, 0
            LIBC.srand(c.index)
            sol = self.prog.Solve(mine)
        else:
            b = np.array([c.rng.gauss(0, 1) for _ in range(self.m)])
            form = c.rng.choice([b, b.reshape(-1, 1), b.reshape(1, -1), np.matrix(b), np.matrix(b).T, list(b)])
            LIBC.srand(c.index)
            sol = self.prog.Maximize(form, mine)
        LIBC.srand(c.index)
        status, y = self.ref.run(b, other)
        what = "%s m=%d %s" % ("Solve" if quadratic else "Maximize", self.m, ",".join(self.kinds))
        c.count("solves")
        c.count("solved" if status else "not solved")
        if y is not None:
            c.check(sol.status == status, "status", "%s: status %s; the C interface's is %s" % (what, sol.status, status))
            c.check(same(sol.y, y), "y", "%s: y %s; the C interface's is %s" % (what, sol.y, y))
        last = self.ref.stats(-1)[1]
        stats = self.prog.GetIterationStats()
        c.check(not self.ref.wrong, "numbering", "%s: constraint numbers (returned, counted): %s" % (what, self.ref.wrong))
        c.check(len(stats) == last + 1, "stats", "%s: %d iterations reported; the library has %d"
                % (what, len(stats), last + 1))
        for k, s in enumerate(stats[:last + 1]):
            c.check((s.mu, s.iteration_number) == self.ref.stats(k), "stats", "%s: iteration %d: %s" % (what, k, s.mu))
        return sol, b, what

    def duals(self, sol, b, what):
        c = self.c
        try:
            xs = self.prog.GetDualVariables()
        except Exception as e:
            c.check(False, "duals", "%s: GetDualVariables: %s: %s" % (what, type(e).__name__, e))
            return
        if not c.check(len(xs) == len(self.ref.ids), "duals", "%s: %d dual variables for %d constraints"
                       % (what, len(xs), len(self.ref.ids))):
            return
        for k, (x, i) in enumerate(zip(xs, self.ref.ids)):
            c.count("dual variables compared")
            want = self.ref.dual(i)
            c.check(same(np.asarray(x).T.reshape(-1, order="F"), want), "duals",
                    "%s: dual variable of constraint %d is %s; the library's is %s" % (what, k, np.asarray(x).tolist(), want))
        if all(d[0] in ("linear", "lmi") for d in self.data) and b is not None:
            self.errors(sol, xs, b, what)

    def errors(self, sol, xs, b, what):
        c = self.c
        y = np.asarray(sol.y)
        col = np.matrix(y).T.view(Column)
        sa, err = self.prog.ComputeErrors(col, xs, np.matrix(b).T)
        c.count("errors compared")
        gap, Ax, scale = 0.0, np.zeros(self.m), 1.0
        eig_s, eig_x = [], []
        for d, x in zip(self.data, xs):
            x = np.asarray(x)
            if d[0] == "linear":
                s = d[2] - d[1] @ y
                x = x.reshape(-1)
                gap += s @ x
                Ax += d[1].T @ x
                eig_s.append(s.min())
                eig_x.append(x.min())
                scale = max(scale, np.abs(s).max() * np.abs(x).max() * len(s), np.abs(x).max() * np.abs(d[1]).sum())
            else:
                s = d[2] - sum(mat * y[v] for mat, v in zip(d[1], d[3]))
                gap += np.trace(s @ x)
                for mat, v in zip(d[1], d[3]):
                    Ax[v] += np.trace(mat @ x)
                eig_s.append(np.linalg.eigvalsh(s).min())
                eig_x.append(np.linalg.eigvalsh((x + x.T) / 2).min())
                scale = max(scale, np.abs(s).max() * np.abs(x).max() * s.size,
                            np.abs(x).max() * sum(np.abs(mat).sum() for mat in d[1]))
        if not np.isfinite(scale) or scale > 1e6:
            c.count("errors not judged: unbounded")
            return
        tol = 1e-9 * scale

        def near(a, want, name):
            a = np.real(np.asarray(a)).reshape(-1)
            e = abs(float(a[0]) - want) if a.size == 1 else np.inf
            c.maximum("difference in errors", e / scale)
            c.check(e <= tol, "errors", "%s: ComputeErrors' %s is %s; it is %.12g" % (what, name, a.tolist(), want))
        near(err.x_dot_s, gap, "x_dot_s")
        near(err.Ax_minus_b, np.linalg.norm(b - Ax), "Ax_minus_b")
        for name, got, want in (("min_eig_S", err.min_eig_S, eig_s), ("min_eig_X", err.min_eig_X, eig_x)):
            if c.check(len(got) == len(want), "errors", "%s: ComputeErrors has %d entries in %s for %d constraints"
                       % (what, len(got), name, len(want))):
                for g, w in zip(got, want):
                    # Eigenvalues of a defective-looking matrix lose digits.
                    gv = float(np.real(np.asarray(g)).reshape(-1)[0])
                    c.check(abs(gv - w) <= 1e-6 * scale, "errors", "%s: %s is %.12g; it is %.12g" % (what, name, gv, w))
        for k, (d, s) in enumerate(zip(self.data, sa)):
            want = d[2] - d[1] @ y if d[0] == "linear" else d[2] - sum(mat * y[v] for mat, v in zip(d[1], d[3]))
            s = np.asarray(s)
            c.check(s.size == np.size(want) and np.abs(s.reshape(-1) - np.reshape(want, -1)).max() <= tol, "errors",
                    "%s: slack %d is %s; it is %s" % (what, k, s.tolist(), np.asarray(want).tolist()))

    def close(self):
        self.ref.close()


def refusals(c, pair):
    prog, m = pair.prog, pair.m
    calls = [
        ("AddQuadraticCost of the wrong order", lambda: prog.AddQuadraticCost(np.eye(m + 1))),
        ("AddQuadraticCost not square", lambda: prog.AddQuadraticCost(np.ones((m, m + 2)))),
        ("Maximize with too many costs", lambda: prog.Maximize(np.ones(m + 1))),
        ("AddSparseLinearMatrixInequality with an unknown variable",
         lambda: prog.AddSparseLinearMatrixInequality(np.zeros((2, 2, 1)), np.eye(2), np.array([m]))),
        ("NewLinearMatrixInequality of negative order", lambda: prog.NewLinearMatrixInequality(-2, 2)),
        ("NewLinearMatrixInequality of dimension 3", lambda: prog.NewLinearMatrixInequality(2, 3)),
        ("NewLinearMatrixInequality over octonions of order 4", lambda: prog.NewLinearMatrixInequality(4, 8)),
        ("NewLorentzConeConstraint of order 0", lambda: prog.NewLorentzConeConstraint(0)),
        ("NewLinearInequality without rows", lambda: prog.NewLinearInequality(0)),
        ("UpdateLinearOperator of an unknown constraint", lambda: prog.UpdateLinearOperator(1000, 1.0, 0, 0)),
        ("UpdateAffineTerm of an unknown constraint", lambda: prog.UpdateAffineTerm(1000, 1.0, 0)),
        ("UpdateQuadraticCostMatrix of an unknown constraint",
         lambda: prog.UpdateQuadraticCostMatrix(1000, 1.0, 0, 0)),
    ]
    if m > 1:
        calls.append(("Maximize with too few costs", lambda: prog.Maximize(np.ones(m - 1))))
    name, f = c.rng.choice(calls)
    try:
        f()
        c.check(False, "refusal", "%s was accepted" % name)
    except NameError:
        c.count("refused:" + name)
        c.check(True, "refusal", "")


CONES = ["linear", "two_sided", "lmi", "sparse", "new_lmi", "new_soc", "new_linear"]


def finish(c, pair, quadratic=False, judge_duals=True, rounds=2):
    for _ in range(c.rng.randint(1, rounds)):
        sol, b, what = pair.solve(quadratic)
        if judge_duals:
            pair.duals(sol, b, what)
    c.d.distinct.add("%s|%d|%s" % (c.scenario, pair.m, ",".join(pair.kinds)))
    if len(c.d.samples) < 3:
        c.d.samples.append("%s: %s" % (c.scenario, what))
    pair.close()


def run_arrays(c):
    """Constraints given as arrays."""
    pair = Pair(c, c.rng.randint(1, 5))
    items = [c.rng.choice(["linear", "lmi", "sparse"]) for _ in range(c.rng.randint(1, 4))]
    items.insert(c.rng.randint(0, len(items)), "bound")
    for k in items:
        pair.bound() if k == "bound" else pair.add(k)
    finish(c, pair)


def run_mixed(c):
    """Every way of adding a constraint, in any order."""
    pair = Pair(c, c.rng.randint(1, 5))
    items = [c.rng.choice(CONES) for _ in range(c.rng.randint(1, 5))]
    items.insert(c.rng.randint(0, len(items)), "bound")
    for k in items:
        if c.rng.random() < .3:
            refusals(c, pair)
        pair.bound() if k == "bound" else pair.add(k)
    if c.rng.random() < .3:
        refusals(c, pair)
    finish(c, pair)


def run_cost(c):
    """Quadratic costs with linear inequalities (one and two sided)."""
    pair = Pair(c, c.rng.randint(1, 6))
    items = [c.rng.choice(["linear", "two_sided", "new_linear"]) for _ in range(c.rng.randint(0, 3))]
    items += [c.rng.choice(["cost", "new_cost"])]
    c.rng.shuffle(items)
    items.insert(c.rng.randint(0, len(items)), "bound")
    for k in items:
        pair.bound() if k == "bound" else pair.add(k)
    finish(c, pair, quadratic=True)


def run_alive(c):
    """Several programs at once, built and used in turns, some deleted early."""
    pairs = [Pair(c, c.rng.randint(1, 4)) for _ in range(c.rng.randint(2, 4))]
    for p in pairs:
        p.bound()
    for _ in range(c.rng.randint(4, 12)):
        p = c.rng.choice(pairs)
        if c.rng.random() < .5:
            p.add(c.rng.choice(["linear", "lmi", "sparse"]))
        else:
            sol, b, what = p.solve(False)
            p.duals(sol, b, what)
        if c.rng.random() < .2 and len(pairs) > 1:
            gone = pairs.pop(c.rng.randint(0, len(pairs) - 1))
            gone.close()
            gone.prog = None
    for p in pairs:
        finish(c, p, rounds=1)


SCENARIOS = [("arrays", 1600, 12000, run_arrays), ("mixed", 2000, 16000, run_mixed), ("cost", 1200, 8000, run_cost),
             ("alive", 400, 3200, run_alive)]


class Driver:
    def __init__(self, out):
        self.out = open(out, "a")
        self.counts, self.maxima, self.per_key, self.distinct, self.samples, self.cases = {}, {}, {}, set(), [], 0

    def line(self, obj):
        self.out.write(json.dumps(obj) + "\n")
        self.out.flush()


def main(argv):
    o = {"--out": "/dev/stderr", "--progress": "", "--seed": "1", "--tier": "quick", "--shard": "0/1",
         "--scenario": "", "--case": "-1", "--from": "", "--timeout": "60", "--scale": "1"}
    for i in range(0, len(argv) - 1, 2):
        o[argv[i]] = argv[i + 1]
    d = Driver(o["--out"])
    shard, n = (int(x) for x in o["--shard"].split("/"))
    skipping = bool(o["--from"])
    signal.signal(signal.SIGALRM, lambda *a: os._exit(97))
    progress = os.open(o["--progress"], os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o644) if o["--progress"] else None
    for name, quick, thorough, run in SCENARIOS:
        if o["--scenario"] and o["--scenario"] != name:
            continue
        total = int((thorough if o["--tier"] == "thorough" else quick) * float(o["--scale"]))
        only = int(o["--case"])
        for k in ([only] if only >= 0 else range(total)):
            if only < 0 and k % n != shard:
                continue
            if skipping:
                if o["--from"] == "%s,%d" % (name, k):
                    skipping = False
                continue
            if progress is not None:
                text = ("%s,%d\n" % (name, k)).encode()
                os.pwrite(progress, text, 0)
                os.ftruncate(progress, len(text))
            c = Ctx(d, name, k, int(o["--seed"]), o["--tier"] == "thorough", only >= 0)
            signal.alarm(int(o["--timeout"]))
            live = len(MONITOR.live)
            try:
                run(c)
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                inside = [f for f in tb if f.filename.startswith(REPO)]
                if not inside and not isinstance(e, SwigError):
                    raise
                where = inside[-1] if inside else tb[-1]
                c.check(False, "exception:" + where.name, "%s: %s (line %d of %s)" % (
                    type(e).__name__, e, where.lineno, os.path.basename(where.filename)))
            signal.alarm(0)
            import gc
            gc.collect()
            for key, msg in MONITOR.problems:
                c.violate(key, msg)
            MONITOR.problems.clear()
            c.check(len(MONITOR.live) == live, "lifetime", "programs are not deleted with their objects")
            d.cases += 1
            d.counts["cases:" + name] = d.counts.get("cases:" + name, 0) + 1
    for name, k in MONITOR.calls.items():
        d.counts["calls:" + name] = k
    d.line(dict(t="summary", cases=d.cases, counts=d.counts, maxima=d.maxima, distinct=sorted(d.distinct),
                samples=d.samples))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
