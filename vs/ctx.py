"""Harness contexts.  A harness is written once against this interface and is
run symbolically (SymCtx: inputs are solver variables, checks are collected as
solver obligations) or concretely (ConcreteCtx: a model of a path, on the
natively compiled code with real numpy / scipy)."""
import math
from fractions import Fraction

import numpy as np


class Skip(BaseException):
    """concrete run left the assumed input space"""


class H:
    """harness: fn(ctx, **case)"""

    def __init__(self, name, fn, quick, thorough=None, tol=1e-6, note="", fixed=(), seeds=40, deep=False):
        self.name = name
        self.fn = fn
        self.quick = list(quick)
        self.thorough = list(thorough) if thorough is not None else []
        self.tol = tol
        self.note = note
        self.fixed = set(fixed)     # nondeterminism kinds not explored (first choice taken)
        self.seeds = seeds

    def cases(self, tier):
        return self.quick if tier == "quick" else self.quick + self.thorough


class BaseCtx:
    symbolic = False

    # -- matrices ----------------------------------------------------------
    def vec(self, name, n, **k):
        return self.asarray([self.real(f"{name}{i}", **k) for i in range(n)])

    def mat(self, name, n, m, **k):
        return self.asarray([[self.real(f"{name}{i}_{j}", **k) for j in range(m)] for i in range(n)], (n, m))

    def sparse(self, name, pattern, n_cols, fmt="csr", values=None, dtype=None, **k):
        """pattern: list (per row) of column lists"""
        rows, cols, vals = [], [], []
        for i, cs in enumerate(pattern):
            for j in cs:
                rows.append(i)
                cols.append(j)
                vals.append(values if values is not None else self.real(f"{name}{i}_{j}", **k))
        cls = self.sps.csr_matrix if fmt == "csr" else self.sps.csc_matrix
        return cls((self.asarray(vals), (np.array(rows, dtype=np.int64), np.array(cols, dtype=np.int64))),
                   shape=(len(pattern), n_cols))

    def entries(self, m):
        """{(i, j): value} of the stored entries of a sparse matrix"""
        m = m.tocoo() if hasattr(m, "tocoo") else m
        out = {}
        for i, j, v in zip(m.row.tolist(), m.col.tolist(), list(m.data)):
            out[i, j] = out[i, j] + v if (i, j) in out else v
        return out

    def dense(self, m):
        """list of lists"""
        a = m.toarray() if hasattr(m, "toarray") else m
        return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]

    def all_eq(self, label, A, B):
        A = self.dense(A) if not isinstance(A, list) else A
        B = self.dense(B) if not isinstance(B, list) else B
        self.check(label + ".shape", len(A) == len(B) and all(len(x) == len(y) for x, y in zip(A, B)))
        for i, (x, y) in enumerate(zip(A, B)):
            for j, (u, v) in enumerate(zip(x, y)):
                self.eq(f"{label}[{i},{j}]", u, v)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.check(label, True)
        else:
            self.check(label, False)

    def call(self, fn, *excs):
        """(value, None) or (None, exception)"""
        try:
            return fn(), None
        except excs as e:
            return None, e


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs, tol, seed=0, irspack=None):
        import scipy.sparse

        self.inputs = dict(inputs)
        self.tol = tol
        self.seed0 = seed
        self.failed = []
        self.nchecks = 0
        self.np = np
        self.sps = scipy.sparse
        self.irspack = irspack
        self.k = 0
        self.reached = set()
        self.used_rng = False

    def _in(self, name, default):
        v = self.inputs.get(name)
        if v is None:
            return default
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, default=1):
        v = float(Fraction(self._in(name, default)))
        return v

    def int(self, name, lo, hi):
        return int(Fraction(self._in(name, lo)))

    def key(self, name, lo, hi):
        return self.int(name, lo, hi)

    def keyconst(self, v):
        return v

    def bool(self, name):
        return bool(int(Fraction(self._in(name, 0))))

    def choice(self, name, options):
        return options[int(Fraction(self._in(name, 0)))]

    def pick(self, name, n):
        return int(Fraction(self._in(name, 0)))

    def rng(self):
        self.used_rng = True
        self.k += 1
        return np.random.RandomState(self.seed0 * 7919 + self.k)

    def seed(self):
        self.used_rng = True
        self.k += 1
        return self.seed0 * 7919 + self.k

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def asarray(self, x, shape=None):
        r = np.array(x, dtype=np.float64)
        return r.reshape(shape) if shape is not None else r

    def reach(self, label):
        self.reached.add(label)

    def check(self, label, c):
        self.nchecks += 1
        if not bool(c):
            self.failed.append(label)

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        if not self.close(a, b, tol):
            self.failed.append(f"{label}: got {float(a)!r}, expected {float(b)!r}")

    def close(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= (tol or self.tol) * max(1.0, abs(a), abs(b))

    def le(self, label, a, b):
        self.nchecks += 1
        a, b = float(a), float(b)
        if not a <= b + self.tol * max(1.0, abs(a), abs(b)):
            self.failed.append(f"{label}: {a!r} <= {b!r} does not hold")

    def lt_strict(self, a, b):
        return a < b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def log2(self, x):
        return math.log2(x)

    def pow(self, a, b):
        return float(a) ** float(b)

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)

    def const(self, x):
        return float(x)

    def isfin(self, x):
        return math.isfinite(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path, irspack, rngcls):
        from . import core, npshim, spshim

        self.core = core
        self.z3 = core.z3
        self.p = path
        self.np = npshim.np_mod
        self.sps = spshim.sp_mod
        self.npshim = npshim
        self.irspack = irspack
        self.rngcls = rngcls
        self.nchecks = 0

    # -- inputs ------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, default=1):
        pin = self.p.pin.get(name)
        if pin is not None:
            return self.core.SymReal(c=Fraction(pin))
        v = self.z3.Real(name)
        self.p.inputs[name] = v
        if lo is not None:
            self.p.add(v >= (self.core.zr(lo) if self.core.is_sym(lo) else self.core._rv(Fraction(lo))))
        if hi is not None:
            self.p.add(v <= (self.core.zr(hi) if self.core.is_sym(hi) else self.core._rv(Fraction(hi))))
        if self.p.alg is not None and lo is not None and hi is not None and not (self.core.is_sym(lo) or self.core.is_sym(hi)):
            self.p.alg.box(v, Fraction(lo), Fraction(hi))
        if pos:
            self.p.add(v > 0)
        if nonneg:
            self.p.add(v >= 0)
        return self.core.SymReal(e=v)

    def int(self, name, lo, hi):
        pin = self.p.pin.get(name)
        if pin is not None:
            return int(Fraction(pin))
        v = self.z3.Int(name)
        self.p.inputs[name] = v
        self.p.add(v >= lo)
        self.p.add(v <= hi)
        return self.core.SymInt(v)

    def key(self, name, lo, hi):
        """integer usable as a dictionary key / dataframe label: identity decided by equality, not case-split"""
        r = self.int(name, lo, hi)
        if isinstance(r, self.core.SymInt):
            r.hash_by_value = False
        return r

    def keyconst(self, v):
        """constant that can be mixed with key()"""
        return self.core.SymInt(self.z3.IntVal(v), hash_by_value=False)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def pick(self, name, n):
        """nondeterministic concrete value in range(n) (complete case split)"""
        pin = self.p.pin.get(name)
        if pin is not None:
            return int(Fraction(pin))
        if name in self.p.inputs:
            return self.p.inputs[name]
        k = self.p.choice(name, n)
        self.p.inputs[name] = k
        if self.p.careful is not None:
            self.p.careful(self.p)
        return k

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def rng(self):
        return self.rngcls()

    def seed(self):
        return 0

    def assume(self, c):
        core = self.core
        if isinstance(c, core.SymBool):
            e = self.z3.simplify(c.e)
            if self.p.sat(e) == self.z3.unsat:
                raise core.PathAbort()
            self.p.add(e)
        elif not bool(c):
            raise core.PathAbort()

    def asarray(self, x, shape=None):
        a = np.array(x, dtype=object) if not (isinstance(x, list) and x and isinstance(x[0], list)) else self.npshim._objarray(x)
        a = np.frompyfunc(self.core.R, 1, 1)(a) if a.size else a
        if shape is not None:
            a = a.reshape(shape)
        return self.npshim.sarr(a)

    # -- obligations -------------------------------------------------------
    def reach(self, label):
        self.p.reached.add(label)

    def check(self, label, c):
        self.nchecks += 1
        core = self.core
        if isinstance(c, core.SymBool):
            c = self.z3.simplify(c.e)
            if self.z3.is_true(c):
                return
            self.p.checks.append((label, c, []))
        elif isinstance(c, np.ndarray):
            raise core.Unsupported("check of an array")
        elif not bool(c):
            self.p.checks.append((label, self.z3.BoolVal(False), []))

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        core, z3 = self.core, self.z3
        a, b = core._num(a), core._num(b)
        if a is None or b is None:
            self.p.checks.append((f"{label}: not a number", z3.BoolVal(False), []))
            return
        sa, sb = core._special(a), core._special(b)
        if sa or sb:
            ok = sa and sb and (a == b or (a != a and b != b))
            if not ok:
                self.p.checks.append((f"{label}: {a} vs {b}", z3.BoolVal(False), []))
            return
        ca, cb = core._const(a), core._const(b)
        if ca is not None and cb is not None:
            if abs(ca - cb) > Fraction(1, 10**9) * (1 + abs(cb)):
                self.p.checks.append((f"{label}: {float(ca)} vs {float(cb)}", z3.BoolVal(False), []))
            return
        x, y = core.zr(a), core.zr(b)
        alg = self.p.alg
        if alg is not None:
            d = alg.term(alg.radd(alg.rat(x), alg.rat(y), -1))
        else:
            d = z3.simplify(x - y, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return
        dd = d

        def margin(m):
            return z3.Or(dd > m, dd < -m)

        tol_ = z3.Q(1, 10**8)
        self.p.checks.append((label, d == 0, [margin(z3.Q(1, 4)), margin(z3.Q(1, 64)), margin(tol_)]))

    def le(self, label, a, b):
        self.nchecks += 1
        core, z3 = self.core, self.z3
        t = core.cmp_term("le", core._num(a), core._num(b))
        if isinstance(t, bool):
            if not t:
                ca, cb = core._const(core._num(a)), core._const(core._num(b))
                if ca is not None and cb is not None and ca - cb < Fraction(1, 10**9):
                    return
                self.p.checks.append((label, z3.BoolVal(False), []))
            return
        x, y = core.zr(core._num(a)), core.zr(core._num(b))
        self.p.checks.append((label, t, [x > y + z3.Q(1, 4), x > y + z3.Q(1, 64), x > y + z3.Q(1, 10**8)]))

    # -- logic / arithmetic --------------------------------------------------
    def and_(self, *cs):
        return self.core.mkbool(self.z3.And(*[self.core.zb(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return self.core.mkbool(self.z3.Or(*[self.core.zb(c) for c in cs])) if cs else False

    def not_(self, c):
        return self.core.mkbool(self.z3.Not(self.core.zb(c)))

    def ite(self, c, a, b):
        return a if bool(c) else b

    def sqrt(self, x):
        return self.core.R(self.core.sqrt(self.core._num(x)))

    def log(self, x):
        return self.core.R(self.core.log(self.core._num(x)))

    def log2(self, x):
        return self.core.R(self.core.div(self.core._num(self.log(x)), self.core._num(self.log(2))))

    def pow(self, a, b):
        return self.core.R(self.core.power(self.core._num(a), self.core._num(b)))

    def div(self, a, b):
        return self.core.R(self.core.div(self.core._num(a), self.core._num(b)))

    def const(self, x):
        return self.core.R(x)

    def isfin(self, x):
        return not isinstance(x, float) or math.isfinite(x)
