"""Normal form for real terms built with +, *, / and square roots.

A quotient or a square root is a named solver variable with a definition.  Before a formula reaches the solver its
comparisons are rewritten over the common denominator (whose factors are non-zero on the path) and s*s is replaced by
the radicand of s, so that the solver sees polynomials over the inputs instead of chains of definitions.  The rewriting
is equivalence-preserving; definitions of variables that remain are added to the query."""
from fractions import Fraction

import z3

F1 = Fraction(1)
ONE = {(): F1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def rawmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def const(p):
    """the value of a constant polynomial, or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def divide(p, f):
    """p / f if f divides p, else None (lexicographic leading terms)"""
    key = lambda m: tuple(sorted(((-v, e) for v, e in m), reverse=True))
    # order: compare exponent vectors lexicographically by variable index
    vs = sorted({v for m in list(p) + list(f) for v, _ in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)

    lf = max(f, key=vec)
    cf, vf = f[lf], vec(lf)
    q, r, n = {}, dict(p), 0
    while r:
        n += 1
        if n > 3000:
            return None
        lr = max(r, key=vec)
        vr = vec(lr)
        if any(a < b for a, b in zip(vr, vf)):
            return None
        m = tuple((v, a - b) for v, a, b in zip(vs, vr, vf) if a - b)
        c = r[lr] / cf
        q[m] = c
        r = padd(r, rawmul({m: c}, f), -1)
    return q


class Rat:
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d):
        self.n, self.d, self._k = n, d, None   # d: {frozen factor polynomial: exponent}

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._k


class Alg:
    MAXTERMS = 4000

    def __init__(self, path):
        self.p = path
        self.memo = {}      # z3 id -> Rat
        self.keep = []
        self.vars = []      # index -> z3 term
        self.index = {}     # z3 id -> index
        self.rad = {}       # variable index -> radicand polynomial
        self.defs = {}      # z3 id of a named variable -> Rat (quotients) or None
        self.lazy = {}      # z3 id -> [constraints]
        self.done = set()
        self.named = {}     # Rat key -> z3 variable
        self.signs = {}
        self.fmemo = {}
        self.vmemo = {}

    # -- polynomials -------------------------------------------------------
    def var(self, t):
        i = self.index.get(t.get_id())
        if i is None:
            i = self.index[t.get_id()] = len(self.vars)
            self.vars.append(t)
        return i

    def mul(self, a, b):
        if len(a) * len(b) > 4_000_000:
            from .core import Unsupported
            raise Unsupported("polynomial too large")
        return self.reduce(rawmul(a, b))

    def reduce(self, r):
        if not self.rad:
            return r
        while True:
            hit = None
            for m in r:
                for v, e in m:
                    if e >= 2 and v in self.rad:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return r
            keep, out = {}, {}
            pw = [ONE]
            for m, c in r.items():
                e = next((e for v, e in m if v == hit), 0)
                if e < 2:
                    keep = padd(keep, {m: c})
                    continue
                while len(pw) <= e // 2:
                    pw.append(rawmul(pw[-1], self.rad[hit]))
                rest = tuple((v, k if v != hit else e % 2) for v, k in m if v != hit or e % 2)
                out = padd(out, rawmul({rest: c}, pw[e // 2]))
            r = padd(keep, out)

    def factor(self, f):
        """(constant, {factor: exponent}) of a denominator polynomial"""
        c = const(f)
        if c is not None:
            return c, {}
        if len(f) == 1:
            (m, c), = f.items()
            return c, {frozenset({((v, 1),): F1}.items()): e for v, e in m}
        lead = f[min(f, key=lambda m: (-sum(e for _, e in m), m))]
        # common monomial
        common = None
        for m in f:
            d = dict(m)
            common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
        g = {tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c / lead for m, c in f.items()}
        out = {frozenset({((v, 1),): F1}.items()): e for v, e in common.items()}
        out[frozenset(g.items())] = 1
        return lead, out

    def tidy(self, n, d):
        """reduce radicals in the denominator, cancel common factors"""
        if not n:
            return Rat({}, {})
        d = dict(d)
        for f in list(d):
            if len(f) == 1:
                (m, c), = f
                if len(m) == 1 and m[0][0] in self.rad and d[f] >= 2:
                    k = d[f] // 2
                    d[f] -= 2 * k
                    if not d[f]:
                        del d[f]
                    c, fs = self.factor(self.rad[m[0][0]])
                    n = {a: b / c ** k for a, b in n.items()}
                    for g, e in fs.items():
                        d[g] = d.get(g, 0) + e * k
                    return self.tidy(n, d)
        if len(n) <= 600:
            for f in list(d):
                fp = dict(f)
                while f in d:
                    q = divide(n, fp)
                    if q is None:
                        break
                    n = q
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
        if len(n) > self.MAXTERMS:
            from .core import Unsupported
            raise Unsupported("polynomial too large")
        return Rat(n, d)

    def expand(self, d):
        r = ONE
        for f, e in d.items():
            for _ in range(e):
                r = self.mul(r, dict(f))
        return r

    def radd(self, a, b, k=1):
        if a.d == b.d:
            return self.tidy(padd(a.n, b.n, k), a.d)
        lcm = dict(a.d)
        for f, e in b.d.items():
            lcm[f] = max(lcm.get(f, 0), e)
        ma = self.expand({f: e - a.d.get(f, 0) for f, e in lcm.items() if e > a.d.get(f, 0)})
        mb = self.expand({f: e - b.d.get(f, 0) for f, e in lcm.items() if e > b.d.get(f, 0)})
        return self.tidy(padd(self.mul(a.n, ma), self.mul(b.n, mb), k), lcm)

    def rmul(self, a, b):
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        return self.tidy(self.mul(a.n, b.n), d)

    def rdiv(self, a, b):
        c, fs = self.factor(b.n)
        n = self.mul({m: v / c for m, v in a.n.items()}, self.expand(b.d))
        d = dict(a.d)
        for f, e in fs.items():
            d[f] = d.get(f, 0) + e
        return self.tidy(n, d)

    # -- terms -------------------------------------------------------------
    def rat(self, e):
        """Rat of a z3 real term"""
        stack = [e]
        memo = self.memo
        while stack:
            t = stack[-1]
            if t.get_id() in memo:
                stack.pop()
                continue
            k = t.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                ch = t.children()
                miss = [c for c in ch if c.get_id() not in memo]
                if miss:
                    stack += miss
                    continue
                rs = [memo[c.get_id()] for c in ch]
                r = rs[0]
                if k == z3.Z3_OP_UMINUS:
                    r = Rat({m: -c for m, c in r.n.items()}, r.d)
                for x in rs[1:]:
                    r = self.rmul(r, x) if k == z3.Z3_OP_MUL else self.radd(r, x, 1 if k == z3.Z3_OP_ADD else -1)
            elif z3.is_rational_value(t):
                v = Fraction(t.numerator_as_long(), t.denominator_as_long())
                r = Rat({(): v} if v else {}, {})
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 16:
                c = t.arg(0)
                if c.get_id() not in memo:
                    stack.append(c)
                    continue
                r = Rat(ONE, {})
                for _ in range(t.arg(1).numerator_as_long()):
                    r = self.rmul(r, memo[c.get_id()])
            elif t.get_id() in self.defs:
                r = self.defs[t.get_id()]
            else:
                r = Rat({((self.var(t), 1),): F1}, {})
            self.keep.append(t)
            memo[t.get_id()] = r
        return memo[e.get_id()]

    def poly(self, p):
        """z3 term of a polynomial"""
        from .core import _rv

        ts = []
        for m, c in sorted(p.items()):
            fs = [] if c == 1 and m else [_rv(c)]
            for v, e in m:
                fs += [self.vars[v]] * e
            ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)

    def term(self, r):
        """z3 term of a Rat: a polynomial or a named quotient"""
        if not r.d:
            return self.poly(r.n)
        k = r.key()
        if k not in self.named:
            q = self.p.fresh("q")
            self.named[k] = q
            self.keep.append(q)
            self.defs[q.get_id()] = r
            self.lazy[q.get_id()] = [q * self.poly(self.expand(r.d)) == self.poly(r.n)]
        return self.named[k]

    def quotient(self, a, b):
        return self.term(self.rdiv(self.rat(a), self.rat(b)))

    def sqrt(self, a, extra=()):
        """square root of a non-negative term"""
        r = self.rat(a)
        # sqrt(n / d) = sqrt(n * odd part of d) / (d with exponents rounded up)
        odd = {f: 1 for f, e in r.d.items() if e % 2}
        up = {f: (e + 1) // 2 for f, e in r.d.items()}
        n = self.mul(r.n, self.expand(odd))
        neg = [f for f, e in up.items() if e % 2 and self.sign(f) != 1]
        if neg:
            return None
        k = ("sqrt", frozenset(n.items()))
        if k not in self.named:
            s = self.p.fresh("sqrt")
            self.keep.append(s)
            self.named[k] = s
            self.lazy[s.get_id()] = [s >= 0, s * s == self.poly(n)] + [x(s) for x in extra]
            self.rad[self.var(s)] = n
        s = self.named[k]
        if not up:
            return s
        d = ONE
        return self.term(self.tidy({((self.var(s), 1),): F1}, up))

    def sign(self, f):
        """1 / -1 if the factor is known to have that sign on this path, else 0"""
        if f in self.signs:
            return self.signs[f]
        t = self.poly(dict(f))
        r = 0
        if self.p.sat(t < 0) == z3.unsat:
            r = 1
        elif self.p.sat(t > 0) == z3.unsat:
            r = -1
        if r:
            self.signs[f] = r
        return r

    # -- formulas ----------------------------------------------------------
    CMP = {z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_GT: lambda a: a > 0, z3.Z3_OP_GE: lambda a: a >= 0,
           z3.Z3_OP_EQ: lambda a: a == 0}

    def norm(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        k = c.get_id()
        if k in self.fmemo:
            return self.fmemo[k]
        op = c.decl().kind()
        if op in self.CMP and c.num_args() == 2 and c.arg(0).sort() == z3.RealSort():
            r = self.atom(op, c.arg(0), c.arg(1))
        elif op == z3.Z3_OP_DISTINCT and c.num_args() == 2 and c.arg(0).sort() == z3.RealSort():
            r = z3.Not(self.atom(z3.Z3_OP_EQ, c.arg(0), c.arg(1)))
        elif c.num_args() and all(z3.is_bool(x) for x in c.children()):
            ch = [self.norm(x) for x in c.children()]
            r = (z3.And(*ch) if op == z3.Z3_OP_AND else z3.Or(*ch) if op == z3.Z3_OP_OR else z3.Not(ch[0]) if op == z3.Z3_OP_NOT
                 else z3.Implies(*ch) if op == z3.Z3_OP_IMPLIES else c.decl()(*ch))
        else:
            r = c
        self.keep += [c, r]
        self.fmemo[k] = r
        return r

    def atom(self, op, a, b):
        r = self.radd(self.rat(a), self.rat(b), -1)
        n = r.n
        if op != z3.Z3_OP_EQ:
            s = 1
            for f, e in r.d.items():
                if e % 2:
                    g = self.sign(f)
                    if g:
                        s *= g
                    else:
                        n = self.mul(n, dict(f))
            if s < 0:
                n = {m: -c for m, c in n.items()}
        v = const(n)
        if v is not None:
            return z3.BoolVal({z3.Z3_OP_LT: v < 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_EQ: v == 0}[op])
        return self.CMP[op](self.poly(n))

    def free(self, c):
        """ids of the uninterpreted constants of a formula"""
        k = c.get_id()
        if k not in self.vmemo:
            self.keep.append(c)
            out, seen, st = set(), set(), [c]
            while st:
                t = st.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if t.num_args() == 0:
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(t.get_id())
                else:
                    st += t.children()
            self.vmemo[k] = out
        return self.vmemo[k]

    def needs(self, cs):
        """definitions of the named variables in cs that the path does not contain yet"""
        out, st = [], list(cs)
        while st:
            for v in self.free(st.pop()):
                if v in self.lazy and v not in self.done:
                    self.done.add(v)
                    out += self.lazy[v]
                    st += self.lazy[v]
        return out

    # -- interval presolve ---------------------------------------------------
    def box(self, v, lo, hi):
        """bounds of an input variable"""
        self.boxes = getattr(self, "boxes", {})
        self.boxes[self.var(v)] = (lo, hi)

    def _range(self, p, box):
        lo = hi = Fraction(0)
        for m, c in p.items():
            a = b = F1
            for v, e in m:
                x, y = box[v]
                if e % 2 == 0 and x < 0:
                    x, y = (Fraction(0) if y >= 0 else min(x * x, y * y)), max(x * x, y * y)
                    e //= 2
                x, y = x ** e, y ** e
                q = (a * x, a * y, b * x, b * y)
                a, b = min(q), max(q)
            if c < 0:
                a, b = b, a
            lo += c * a
            hi += c * b
        return lo, hi

    def _boxof(self, p):
        boxes = getattr(self, "boxes", {})
        out = {}
        for m in p:
            for v, _ in m:
                if v in out:
                    continue
                if v in boxes:
                    out[v] = boxes[v]
                elif v in self.rad:
                    b = self._boxof(self.rad[v])
                    if b is None:
                        return None
                    lo, hi = self._range(self.rad[v], b)
                    if hi < 0 or hi > 10 ** 12:
                        return None
                    s = lambda t: Fraction(float(t) ** 0.5)
                    out[v] = (max(Fraction(0), s(max(lo, 0)) * (1 - Fraction(1, 10 ** 9))), s(hi) * (1 + Fraction(1, 10 ** 9)) + Fraction(1, 10 ** 9))
                else:
                    return None
        return out

    def definite(self, p, cells=300):
        """1 / -1 if the polynomial is positive / negative on the whole input box, else 0 (interval bisection)"""
        k = frozenset(p.items())
        memo = self.__dict__.setdefault("dmemo", {})
        if k not in memo:
            memo[k] = self._definite(p, cells)
        return memo[k]

    def _definite(self, p, cells):
        b = self._boxof(p)
        if b is None or not p:
            return 0
        sg, st, n = 0, [b], 0
        while st:
            n += 1
            if n > cells:
                return 0
            x = st.pop()
            lo, hi = self._range(p, x)
            s = 1 if lo > 0 else -1 if hi < 0 else 0
            if s:
                if sg and s != sg:
                    return 0
                sg = s
                continue
            v = max(x, key=lambda v: x[v][1] - x[v][0])
            a, c = x[v]
            if c - a < Fraction(1, 10 ** 6):
                return 0
            m = (a + c) / 2
            m = Fraction(round(m * 2 ** 24), 2 ** 24)
            st += [{**x, v: (a, m)}, {**x, v: (m, c)}]
        return sg

    def presolve(self, c):
        """True / False if the (normalised) atom holds / fails for every input in the box, else None"""
        op = c.decl().kind()
        if op == z3.Z3_OP_NOT:
            r = self.presolve(c.arg(0))
            return None if r is None else not r
        if op not in self.CMP or c.arg(0).sort() != z3.RealSort():
            return None
        r = self.radd(self.rat(c.arg(0)), self.rat(c.arg(1)), -1)
        if r.d:
            return None
        s = self.definite(r.n)
        if not s:
            return None
        return {z3.Z3_OP_LT: s < 0, z3.Z3_OP_LE: s < 0, z3.Z3_OP_GT: s > 0, z3.Z3_OP_GE: s > 0, z3.Z3_OP_EQ: False}[op]
