"""Symbolic terms and path exploration.

Numbers are exact reals / integers (z3 Real / Int sorts).  A branch on a
symbolic condition asks the solver which sides are feasible and forks; every
feasible path is executed by re-running the harness with a decision prefix.
At the end of a path the solver decides path-condition AND NOT(property).
"""
import math
import sys
import time
from fractions import Fraction

_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)
import z3  # noqa: E402

sys.set_int_max_str_digits(0)
INF = float("inf")
NAN = float("nan")


class PathAbort(BaseException):
    """infeasible / abandoned path (steering, never caught by code under test)"""


class Unsupported(BaseException):
    """operation outside the model"""


class Budget(BaseException):
    pass


# --------------------------------------------------------------------------
class Path:
    """state of the path being executed"""

    def __init__(self, prefix, eng):
        self.prefix = prefix
        self.eng = eng
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.branch_timeout)
        self.pc = []
        self.new = []          # alternative prefixes discovered
        self.cache = {}
        self.keep = []
        self.opaque = {}
        self.inputs = {}       # name -> (z3 var | concrete)
        self.checks = []       # (label, z3 cond, strong negations)
        self.reached = set()
        self.n_fresh = 0
        self.approx = False
        self.choices = []
        self.pin = {}
        self.fixed_kinds = ()
        self.scripted = None
        self.careful = None
        self.alg = None
        if eng.algebra:
            from .alg import Alg

            self.alg = Alg(self)

    # -- solver -----------------------------------------------------------
    def norm(self, c):
        """formula as the solver sees it (definitions it needs are added to the path)"""
        if self.alg is None:
            return c
        c = self.alg.norm(c)
        for d in self.alg.needs([c]):
            self.pc.append(d)
            self.solver.add(d)
        return c

    def add(self, c):
        c = self.norm(c)
        self.pc.append(c)
        self.solver.add(c)

    def sat(self, c):
        c = self.norm(c)
        if self.alg is not None:
            r = self.alg.presolve(c)
            if r is not None:
                self.eng.stats["interval_queries"] = self.eng.stats.get("interval_queries", 0) + 1
                return z3.sat if r else z3.unsat
        t = time.time()
        r = self.solver.check(c)
        self.eng.stats["solver_time"] += time.time() - t
        self.eng.stats["branch_queries"] += 1
        if r == z3.unknown:
            r = self._retry(c)
        return r

    def _retry(self, c):
        t = time.time()
        s = z3.SolverFor("QF_NRA") if False else z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", self.eng.branch_timeout)
        try:
            s.add(*self.pc)
            s.add(c)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.eng.stats["solver_time"] += time.time() - t
        if r == z3.unknown:
            self.approx = True
            self.eng.stats["unknown_branches"] += 1
        return r

    def branch(self, c):
        c = z3.simplify(self.norm(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.cache:
            return self.cache[k]
        nc = z3.simplify(z3.Not(c))
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v not in (0, 1):
                raise Unsupported("non-deterministic re-execution")
            v = bool(v)
        else:
            self.eng.tick()
            st = self.sat(c)
            if st == z3.unsat:
                v = False
            else:
                sf = self.sat(nc)
                if sf == z3.unsat:
                    v = True
                    if st == z3.unknown:
                        pass
                else:
                    v = True
                    self.new.append(self.trace + [0])
        self.trace.append(1 if v else 0)
        self.add(c if v else nc)
        if self.careful is not None:
            self.careful(self)
        self.cache[k] = v
        self.cache[nc.get_id()] = not v
        self.keep.append(c)
        self.keep.append(nc)
        return v

    def choice(self, what, n):
        """nondeterministic value in range(n) (recorded as an input)"""
        if n <= 1 or what in self.fixed_kinds:
            return 0
        if self.scripted is not None:
            v = self.scripted.pop(0) if self.scripted else 0
            return min(v, n - 1)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            self.eng.tick()
            for k in range(1, n):
                self.new.append(self.trace + [k])
        self.trace.append(v)
        self.choices.append((what, v, n))
        return v

    def fresh(self, what, sort="real"):
        self.n_fresh += 1
        nm = f"{what}!{self.n_fresh}"
        return z3.Real(nm) if sort == "real" else z3.Int(nm)


class Engine:
    def __init__(self, branch_timeout=20000, check_timeout=60000):
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.path = None
        self.deadline = None
        self.algebra = False
        self.narrow = False     # model float32 narrowing of values (exact-copy properties)
        self.stats = dict(paths=0, branch_queries=0, check_queries=0, solver_time=0.0,
                          unknown_branches=0, checks=0, inconclusive=0)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()


ENG = Engine()


def P():
    p = ENG.path
    if p is None:
        raise Unsupported("symbolic operation outside a path")
    return p


def branch(c):
    return P().branch(c)


# --------------------------------------------------------------------------
def zr(x):
    """z3 real term of a SymReal/SymInt/number"""
    if isinstance(x, SymReal):
        return x.e if x.e is not None else _rv(x.c)
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    return _rv(Fraction(x))


def _rv(fr):
    return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def _num(x):
    """normalise an operand: SymReal/SymInt/Fraction/inf-float, or None"""
    t = type(x)
    if t is SymReal or t is SymInt:
        return x
    if t is float:
        if x != x or x in (INF, -INF):
            return x
        return Fraction(x)
    if t is int or t is bool:
        return Fraction(int(x))
    if t is Fraction:
        return x
    if t is SymBool:
        return Fraction(1 if bool(x) else 0)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return _num(x.item())
    return None


def mkr(c):
    """exact constant"""
    if isinstance(c, Fraction):
        return SymReal(c=c)
    return c


def _wrap(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return mkr(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return SymReal(e=e)


def _special(x):
    return isinstance(x, float)  # after _num: only inf / nan remain floats


def _const(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, SymReal) and x.c is not None:
        return x.c
    return None


def sign(x):
    """-1/0/1 of a number (forks)"""
    c = _const(x)
    if c is not None:
        return (c > 0) - (c < 0)
    e = zr(x)
    if branch(e > 0):
        return 1
    if branch(e < 0):
        return -1
    return 0


def add(a, b):
    if _special(a) or _special(b):
        fa = a if _special(a) else 0.0
        fb = b if _special(b) else 0.0
        return fa + fb
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        return mkr(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    return SymReal(e=zr(a) + zr(b))


def neg(a):
    if _special(a):
        return -a
    c = _const(a)
    if c is not None:
        return mkr(-c)
    return SymReal(e=-zr(a))


def sub(a, b):
    if _special(a) or _special(b):
        fa = a if _special(a) else 0.0
        fb = b if _special(b) else 0.0
        return fa - fb
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        return mkr(ca - cb)
    if cb == 0:
        return a
    return SymReal(e=zr(a) - zr(b))


def mul(a, b):
    if _special(a) or _special(b):
        fa = a if _special(a) else float(sign(a))
        fb = b if _special(b) else float(sign(b))
        return fa * fb
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        return mkr(ca * cb)
    if ca == 0 or cb == 0:
        return ZERO
    if ca == 1:
        return b
    if cb == 1:
        return a
    return SymReal(e=zr(a) * zr(b))


def div(a, b):
    if _special(a) or _special(b):
        if _special(b):
            return a / b if _special(a) else (NAN if b != b else ZERO)
        s = sign(b)
        return a * (s if s else 1)
    cb = _const(b)
    zero = (cb == 0) if cb is not None else branch(zr(b) == 0)
    if zero:
        s = sign(a)
        return INF * s if s else NAN
    ca = _const(a)
    if ca is not None and cb is not None:
        return mkr(ca / cb)
    if ca == 0:
        return ZERO
    if cb is not None:
        return SymReal(e=zr(a) * _rv(1 / cb))
    p = P()
    if p.alg is not None:
        return _wrap(p.alg.quotient(zr(a), zr(b)))
    # quotient as a named term q with q*b == a (keeps queries polynomial)
    num, den = z3.simplify(zr(a), som=True), z3.simplify(zr(b), som=True)
    key = ("div", num.get_id(), den.get_id())
    if key not in p.opaque:
        if num.eq(den):
            return ONE
        q = p.fresh("q")
        p.keep += [num, den, q]
        p.add(q * den == num)
        p.opaque[key] = q
    return SymReal(e=p.opaque[key])


def _opq(kind, args, build):
    """opaque term: one variable per distinct (normalised) argument tuple"""
    p = P()
    nargs = [z3.simplify(a, som=True) if p.alg is None else p.alg.term(p.alg.rat(a)) for a in args]
    key = (kind,) + tuple(a.get_id() for a in nargs)
    if key not in p.opaque:
        v = p.fresh(kind)
        p.keep += nargs + [v]
        p.opaque[key] = v
        for c in build(v, nargs):
            p.add(c)
    return SymReal(e=p.opaque[key])


def _isqrt(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _bounds(v, f):
    w = abs(Fraction(f)) * Fraction(1, 10**13) + Fraction(1, 10**14)
    lo, hi = Fraction(f) - w, Fraction(f) + w
    if P().alg is not None:
        P().alg.box(v, lo, hi)
    return [v >= _rv(lo), v <= _rv(hi)]


def sqrt(a):
    if _special(a):
        return NAN if a != a or a < 0 else a
    c = _const(a)
    if c is not None:
        if c < 0:
            return NAN
        r = _isqrt(c)
        if r is not None:
            return mkr(r)
        if P().alg is not None:
            return SymReal(e=P().alg.sqrt(_rv(c), [lambda v: z3.And(v > 0, *_bounds(v, math.sqrt(c)))]))
        return _opq("sqrt", [_rv(c)], lambda v, n: [v > 0, v * v == n[0]] + _bounds(v, math.sqrt(c)))
    e = zr(a)
    if branch(e < 0):
        return NAN
    if P().alg is not None:
        t = P().alg.sqrt(e)
        if t is not None:
            return _wrap(t)
    return _opq("sqrt", [e], lambda v, n: [v >= 0, v * v == n[0]])


def log(a):
    if _special(a):
        return NAN if a != a or a < 0 else a
    c = _const(a)
    if c is not None:
        if c <= 0:
            return -INF if c == 0 else NAN
        if c == 1:
            return ZERO
        if c < 1:  # log(1/x) = -log x
            return neg(log(1 / c))
        if c.denominator != 1:
            return sub(_num(log(Fraction(c.numerator))), _num(log(Fraction(c.denominator))))
        return _logint(c.numerator)
    e = zr(a)
    if branch(e <= 0):
        return -INF if branch(e == 0) else NAN
    return _opq("log", [e], lambda v, n: [z3.Implies(n[0] == 1, v == 0), z3.Implies(n[0] > 1, v > 0),
                                          z3.Implies(n[0] < 1, v < 0)])


def _logint(n):
    """log of an integer as a sum over its prime factors"""
    out, k = Fraction(0), 2
    while n > 1:
        while n % k == 0:
            q = k
            out = add(_num(out), _opq("log", [z3.RealVal(q)], lambda v, nn, q=q: _bounds(v, math.log(q))))
            n //= k
        k += 1
        if k * k > n and n > 1:
            q = n
            out = add(_num(out), _opq("log", [z3.RealVal(q)], lambda v, nn, q=q: _bounds(v, math.log(q))))
            break
    return out if not isinstance(out, Fraction) else mkr(out)


def exp(a):
    if _special(a):
        return math.exp(a)
    c = _const(a)
    if c == 0:
        return ONE
    if c is not None:
        return _opq("exp", [_rv(c)], lambda v, n: [v > 0] + _bounds(v, math.exp(c)))
    return _opq("exp", [zr(a)], lambda v, n: [v > 0, z3.Implies(n[0] == 0, v == 1)])


def power(a, b):
    if _special(a) or _special(b):
        if not _special(a):
            ca = _const(a)
            if ca is None:
                raise Unsupported("pow(sym, inf)")
            a = float(ca)
        if not _special(b):
            cb = _const(b)
            if cb is None:
                raise Unsupported("pow(inf, sym)")
            b = float(cb)
        try:
            return math.pow(a, b)
        except (ValueError, OverflowError):
            return NAN
    cb = _const(b)
    if cb is not None and cb.denominator == 1 and abs(cb) <= 8:
        n = int(cb)
        if n == 0:
            return ONE
        r = a
        for _ in range(abs(n) - 1):
            r = _num(mul(_num(r), a))
        return (mkr(r) if isinstance(r, Fraction) else r) if n > 0 else div(Fraction(1), _num(r))
    if cb == Fraction(1, 2):
        return sqrt(a)
    if cb is not None and cb.denominator == 2 and 0 < cb <= 8:
        return mul(_num(power(a, Fraction(int(cb)))), _num(sqrt(a)))
    ca = _const(a)
    if ca is not None and cb is not None:
        if ca < 0:
            return NAN
        if ca == 0:
            return ZERO if cb > 0 else INF
        if ca == 1:
            return ONE
        return _opq("pow", [_rv(ca), _rv(cb)], lambda v, n: [v > 0] + _bounds(v, float(ca) ** float(cb)))
    s = sign(a)
    if s < 0:
        raise Unsupported("pow of a negative symbolic base")
    if s == 0:
        sb = sign(b)
        return ZERO if sb > 0 else (ONE if sb == 0 else INF)
    return _opq("pow", [zr(a), zr(b)], lambda v, n: [
        v > 0, z3.Implies(n[1] == 0, v == 1), z3.Implies(n[1] == 1, v == n[0]), z3.Implies(n[0] == 1, v == 1)])


def absv(a):
    if _special(a):
        return abs(a)
    c = _const(a)
    if c is not None:
        return mkr(abs(c))
    return a if branch(zr(a) >= 0) else neg(a)


def floor_(a):
    if _special(a):
        return a
    c = _const(a)
    if c is not None:
        return SymReal(c=Fraction(math.floor(c)))
    return SymReal(e=z3.ToReal(z3.ToInt(zr(a))))


def ceil_(a):
    r = floor_(_num(neg(a)))
    return neg(_num(r))


def trunc_(a):
    if _special(a):
        return a
    return floor_(a) if sign(a) >= 0 else ceil_(a)


def round_half_away(a):
    if _special(a):
        return a
    h = Fraction(1, 2)
    return floor_(_num(add(a, h))) if sign(a) >= 0 else ceil_(_num(sub(a, h)))


def rint_(a):
    if _special(a):
        return a
    f = floor_(a)
    d = sub(a, _num(f))
    h = Fraction(1, 2)
    if cmp("lt", _num(d), h):
        return f
    if cmp("gt", _num(d), h):
        return add(_num(f), Fraction(1))
    k = concretize(zr(_num(f)))
    return SymReal(c=Fraction(k if k % 2 == 0 else k + 1))


def cmp_term(op, a, b):
    """-> bool or z3 Bool"""
    if _special(a) or _special(b):
        fa = a if _special(a) else 0.0
        fb = b if _special(b) else 0.0
        return {"lt": fa < fb, "le": fa <= fb, "gt": fa > fb, "ge": fa >= fb, "eq": fa == fb, "ne": fa != fb}[op]
    ca, cb = _const(a), _const(b)
    if ca is not None and cb is not None:
        x, y = ca, cb
    elif isinstance(a, SymInt) and isinstance(b, (SymInt, Fraction)) or isinstance(b, SymInt) and isinstance(a, Fraction):
        x, y = zi(a), zi(b)
    else:
        x, y = zr(a), zr(b)
    if op == "lt":
        return x < y
    if op == "le":
        return x <= y
    if op == "gt":
        return x > y
    if op == "ge":
        return x >= y
    if op == "eq":
        return x == y
    return x != y


def zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, Fraction):
        if x.denominator != 1:
            return _rv(x)
        return z3.IntVal(x.numerator)
    return z3.IntVal(int(x))


def cmp(op, a, b):
    t = cmp_term(op, a, b)
    return t if isinstance(t, bool) else branch(t)


def concretize(e, lo=-64, hi=64):
    """complete case split of an integral term over its feasible values"""
    if not z3.is_int(e):
        e = z3.ToInt(e)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    for k in _order(lo, hi):
        if branch(e == k):
            return k
    raise Unsupported("integer value outside [-64, 64]")


def _order(lo, hi):
    for k in range(0, hi + 1):
        yield k
        if k and -k >= lo:
            yield -k


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.e == zb(o))
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __reduce__(self):
        return (bool, (bool(self),))


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _bin(f, flip=False):
    def op(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return f(n, self) if flip else f(self, n)

    return op


def _cmpop(name):
    def op(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        t = cmp_term(name, self, n)
        return t if isinstance(t, bool) else mkbool(t)

    return op


class _NumBase:
    __slots__ = ()
    __lt__ = _cmpop("lt")
    __le__ = _cmpop("le")
    __gt__ = _cmpop("gt")
    __ge__ = _cmpop("ge")
    __truediv__ = _bin(div)
    __rtruediv__ = _bin(div, True)
    __pow__ = _bin(power)
    __rpow__ = _bin(power, True)

    def __eq__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented if hasattr(o, "__array__") else False
        t = cmp_term("eq", self, n)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented if hasattr(o, "__array__") else True
        t = cmp_term("ne", self, n)
        return t if isinstance(t, bool) else mkbool(t)

    # numpy object-ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def log2(self):
        return div(_num(log(self)), _num(log(Fraction(2))))

    def exp(self):
        return exp(self)

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


PICKLED = []


def _unpickle(k):
    return PICKLED[k]


class SymReal(_NumBase):
    __slots__ = ("c", "e")

    def __init__(self, e=None, c=None):
        self.e = e
        self.c = c

    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)
    __mul__ = _bin(mul)
    __rmul__ = _bin(mul, True)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __bool__(self):
        return cmp("ne", self, Fraction(0))

    def __hash__(self):
        return 0

    def floor(self):
        return floor_(self)

    def ceil(self):
        return ceil_(self)

    rint = lambda self: rint_(self)

    def __floor__(self):
        return SymInt(z3.ToInt(zr(self)))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-zr(self)))

    def __trunc__(self):
        return concretize(zr(_num(trunc_(self))))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        return concretize(zr(_num(rint_(self))))

    def __int__(self):
        return concretize(zr(_num(trunc_(self))))

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic real")

    def is_integer(self):
        return branch(zr(self) == z3.ToReal(z3.ToInt(zr(self))))

    def __floordiv__(self, o):
        return floor_(_num(div(self, _num(o))))

    def __mod__(self, o):
        o = _num(o)
        q = floor_(_num(div(self, o)))
        return sub(self, _num(mul(_num(q), o)))

    def __repr__(self):
        return f"<R {self.c if self.c is not None else self.e}>"

    def __reduce__(self):
        # pickling inside one path: the term itself stays in this process
        PICKLED.append(self)
        return (_unpickle, (len(PICKLED) - 1,))


def _ibin(fi, fr, flip=False):
    def op(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n, SymInt) or (isinstance(n, Fraction) and not isinstance(o, (float,)) and n.denominator == 1):
            a, b = (zi(n), self.e) if flip else (self.e, zi(n))
            return mkint(fi(a, b))
        return fr(n, self) if flip else fr(self, n)

    return op


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _floordiv_i(a, b):
    if not z3.is_int_value(b):
        if branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if branch(b > 0):
            return a / b
        return (-a) / (-b)
    k = b.as_long()
    if k == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    return a / b if k > 0 else (-a) / z3.IntVal(-k)


class SymInt(_NumBase):
    """python int semantics"""

    __slots__ = ("e", "hash_by_value")

    def __init__(self, e, hash_by_value=True):
        self.e = e
        self.hash_by_value = hash_by_value

    __add__ = _ibin(lambda a, b: a + b, add)
    __radd__ = _ibin(lambda a, b: a + b, add, True)
    __sub__ = _ibin(lambda a, b: a - b, sub)
    __rsub__ = _ibin(lambda a, b: a - b, sub, True)
    __mul__ = _ibin(lambda a, b: a * b, mul)
    __rmul__ = _ibin(lambda a, b: a * b, mul, True)
    __floordiv__ = _ibin(_floordiv_i, lambda a, b: floor_(_num(div(a, b))))
    __rfloordiv__ = _ibin(_floordiv_i, lambda a, b: floor_(_num(div(a, b))), True)
    __mod__ = _ibin(lambda a, b: a - b * _floordiv_i(a, b), lambda a, b: sub(a, _num(mul(_num(floor_(_num(div(a, b)))), b))))
    __rmod__ = _ibin(lambda a, b: a - b * _floordiv_i(a, b), None, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if branch(self.e >= 0) else mkint(-self.e)

    def __bool__(self):
        return branch(self.e != 0)

    def __hash__(self):
        if self.hash_by_value:
            return hash(concretize(self.e))
        return 0

    def __index__(self):
        return concretize(self.e)

    __int__ = __index__

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(concretize(self.e))

    def floor(self):
        return SymReal(e=z3.ToReal(self.e))

    ceil = floor

    def __repr__(self):
        return f"<I {self.e}>"

    def __reduce__(self):
        return (int, (int(self),))


ZERO = SymReal(c=Fraction(0))
ONE = SymReal(c=Fraction(1))


def narrow(x, dt):
    """x converted to a narrower float type: exact on constants, an unknown function of the value otherwise"""
    n = _num(x)
    if isinstance(n, float) or n is None:
        return x
    if isinstance(n, Fraction):
        import numpy as np

        return R(Fraction(float(dt.type(float(n)))))
    if isinstance(n, SymInt):
        return R(n)
    return SymReal(e=z3.Function("narrow_" + dt.name, z3.RealSort(), z3.RealSort())(zr(n)))


def R(x):
    """exact symbolic constant (infinities and nan stay floats)"""
    n = _num(x)
    return SymReal(c=n) if isinstance(n, Fraction) else (SymReal(e=zr(n)) if isinstance(n, SymInt) else n)
