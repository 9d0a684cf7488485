"""Symbolic scalars of the abstract domain: constants, linear forms over atoms, uninterpreted applications."""


BIG = 3000      # terms with more nodes (without sharing) are not spelled out


class Sym:
    """An unknown scalar. `name` identifies it, `bits`/`sg` its C++ type; `src` tells free inputs from lost precision."""
    __slots__ = ("name", "bits", "sg", "enum", "src", "_h")

    def __init__(self, name, bits=64, sg=False, enum=None, src="in"):
        self.name, self.bits, self.sg, self.enum, self.src = name, bits, sg, enum, src
        self._h = hash(("sym", name))

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.name


class App:
    """An uninterpreted application (also the canonical form of 128-bit arithmetic)."""
    __slots__ = ("op", "args", "bits", "sg", "_h", "size")

    def __init__(self, op, args, bits=64, sg=False):
        self.op, self.args, self.bits, self.sg = op, tuple(args), bits, sg
        self._h = hash((op, self.args, bits, sg))
        self.size = 1 + sum(getattr(a, "size", 1) for a in self.args)

    def __eq__(self, o):
        return isinstance(o, App) and o._h == self._h and o.op == self.op and o.args == self.args \
            and o.bits == self.bits and o.sg == self.sg

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.size > BIG:
            return "%s(... %x)" % (self.op, self._h & (1 << 64) - 1)
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Lin:
    """c + sum(coef * atom), never constant (constants are plain ints)."""
    __slots__ = ("c", "t", "_h", "size")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = hash((c, t))
        self.size = 1 + sum(getattr(a, "size", 1) for a, _ in t)

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.t == self.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.size > BIG:
            return "(... %x)" % (self._h & (1 << 64) - 1)
        s = []
        for a, k in self.t:
            s.append(("%d*%r" % (k, a)) if k != 1 else repr(a))
        if self.c or not s:
            s.append(str(self.c))
        return "(" + " + ".join(s) + ")"


class Cond:
    """A boolean: kind 'ge' (lin >= 0) or 'eq' (lin == 0), possibly negated."""
    __slots__ = ("kind", "lin", "neg")

    def __init__(self, kind, lin, neg=False):
        self.kind, self.lin, self.neg = kind, lin, neg

    def __eq__(self, o):
        return isinstance(o, Cond) and (o.kind, o.lin, o.neg) == (self.kind, self.lin, self.neg)

    def __hash__(self):
        return hash((self.kind, self.lin, self.neg))

    def __repr__(self):
        return "%s%r%s" % ("!" if self.neg else "", self.lin, ">=0" if self.kind == "ge" else "==0")


def is_sym(x):
    return isinstance(x, (Sym, App, Lin, Cond))


def atoms_of(x):
    if isinstance(x, Lin):
        return [a for a, _ in x.t]
    if isinstance(x, (Sym, App)):
        return [x]
    if isinstance(x, Cond):
        return atoms_of(x.lin)
    return []


def _akey(a):
    return (0, a.name) if isinstance(a, Sym) else (1, repr(a))


def mk_lin(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: _akey(x[0]))
    return Lin(c, tuple(items))


def parts(x):
    if isinstance(x, bool):
        return int(x), {}
    if isinstance(x, int):
        return x, {}
    if isinstance(x, Lin):
        return x.c, dict(x.t)
    if isinstance(x, Cond):
        return 0, {App("b", (x,), 1): 1}
    return 0, {x: 1}


def add(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) + s * int(b)
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def neg_cond(c):
    if isinstance(c, int):
        return int(not c)
    return Cond(c.kind, c.lin, not c.neg)


def norm_eq(l):
    """canonical sign for an equality form"""
    if isinstance(l, Lin) and l.t[0][1] < 0:
        return scale(l, -1)
    return l


def has_cast(x):
    if isinstance(x, Lin):
        return any(has_cast(a) for a, _ in x.t)
    if isinstance(x, App):
        return x.op == "cast" or any(has_cast(a) for a in x.args if not isinstance(a, (int, str)))
    return False


TOP = 1 << 200


class Dom:
    __slots__ = ("lo", "hi", "ex", "al")

    def __init__(self, lo=-TOP, hi=TOP, ex=frozenset(), al=None):
        self.lo, self.hi, self.ex, self.al = lo, hi, ex, al

    def values(self, limit=600):
        if self.al is not None:
            return sorted(self.al)
        if self.hi - self.lo <= limit:
            return [v for v in range(self.lo, self.hi + 1) if v not in self.ex]
        return None

    def has(self, v):
        if self.al is not None:
            return v in self.al
        return self.lo <= v <= self.hi and v not in self.ex

    def empty(self):
        if self.al is not None:
            return not self.al
        return self.lo > self.hi

    def single(self):
        if self.al is not None:
            if len(self.al) == 1:
                return next(iter(self.al))
            return None
        return self.lo if self.lo == self.hi else None

    def restrict(self, lo=None, hi=None):
        nlo = self.lo if lo is None else max(self.lo, lo)
        nhi = self.hi if hi is None else min(self.hi, hi)
        if self.al is not None:
            al = frozenset(v for v in self.al if nlo <= v <= nhi)
            return Dom(nlo, nhi, self.ex, al)
        while nlo <= nhi and nlo in self.ex:
            nlo += 1
        while nlo <= nhi and nhi in self.ex:
            nhi -= 1
        return Dom(nlo, nhi, self.ex, None)

    def without(self, vs):
        if self.al is not None:
            al = self.al - frozenset(vs)
            return Dom(self.lo, self.hi, self.ex, al)
        d = Dom(self.lo, self.hi, self.ex | frozenset(vs), None)
        return d.restrict()

    def only(self, vs):
        return Dom(self.lo, self.hi, self.ex, frozenset(v for v in vs if self.has(v)))

    def bounds(self):
        if self.al is not None:
            if not self.al:
                return 1, 0
            return min(self.al), max(self.al)
        return self.lo, self.hi


class Facts:
    """What is known on the current path. Decides entailment by normal forms and bounds only."""

    def __init__(self):
        self.dom = {}
        self.subst = {}
        self.ineq = []
        self.neq = set()

    def domain(self, a):
        d = self.dom.get(a)
        if d is None:
            if isinstance(a, Sym):
                if a.enum is not None:
                    d = Dom(al=frozenset(a.enum))
                elif a.bits == 1:
                    d = Dom(0, 1, al=frozenset((0, 1)))
                elif a.sg:
                    d = Dom(-(1 << (a.bits - 1)), (1 << (a.bits - 1)) - 1)
                else:
                    d = Dom(0, (1 << a.bits) - 1)
            else:
                if a.bits == 1:
                    d = Dom(0, 1, al=frozenset((0, 1)))
                elif a.sg is None:
                    d = Dom()
                elif a.sg:
                    d = Dom(-(1 << (a.bits - 1)), (1 << (a.bits - 1)) - 1)
                else:
                    d = Dom(0, (1 << a.bits) - 1)
                b = self._app_bounds(a)
                if b is not None and d.al is None:
                    d = d.restrict(b[0], b[1])
            self.dom[a] = d
        return d

    def _app_bounds(self, a):
        if a.op not in ("&", "|", "^", "%", "/", ">>") or len(a.args) != 2:
            return None
        (la, ha), (lb, hb) = [(x, x) if isinstance(x, int) else self.bounds(x) if is_sym(x) and not isinstance(x, Cond) else (-TOP, TOP)
                              for x in a.args]
        if a.op == "&":
            hs = [h for l, h in ((la, ha), (lb, hb)) if l >= 0]
            return (0, min(hs)) if hs else None
        if la < 0 or lb < 0:
            return None
        if a.op in ("|", "^"):
            m = max(ha, hb)
            return (0, (1 << m.bit_length()) - 1)
        if a.op == "%":
            return (0, min(ha, max(hb - 1, 0)))
        if a.op == "/" and lb > 0:
            return (la // hb, ha // lb)
        return (0, ha)

    def _mask_eq(self, l):
        """(x & m) == x with m = 2^k - 1 and x >= 0  is  x <= m"""
        for s in (1, -1):
            c, d = parts(l)
            for a, k in d.items():
                if isinstance(a, App) and a.op == "&" and k == s:
                    for m, x in (a.args, a.args[::-1]):
                        if isinstance(m, int) and m > 0 and m & (m + 1) == 0 and is_sym(x) and not isinstance(x, Cond):
                            if scale(sub(l, scale(a, k)), -k) == x and self.bounds(x)[0] >= 0:
                                return Cond("ge", sub(m, x))
        return None

    def _rewrite(self, c):
        if isinstance(c, Cond) and c.kind == "eq" and is_sym(c.lin):
            m = self._mask_eq(c.lin)
            if m is not None:
                return Cond("ge", m.lin, c.neg)
        return c

    def _drop_mask(self, x):
        """y & lowmask is y when y is known to lie within the mask"""
        m, y = x.args
        if isinstance(y, int):
            m, y = y, m
        if isinstance(m, int) and m > 0 and m & (m + 1) == 0 and is_sym(y) and not isinstance(y, Cond):
            lo, hi = self.bounds(y)
            if lo >= 0 and hi <= m:
                return self.norm(y)
        return x

    def norm(self, x):
        """apply known equalities"""
        if isinstance(x, int):
            return x
        if isinstance(x, Cond):
            l = self.norm(x.lin)
            if l is x.lin:
                return x
            return Cond(x.kind, l, x.neg)
        if isinstance(x, (Sym, App)):
            s = self.subst.get(x)
            if s is not None:
                return self.norm(s)
            if isinstance(x, App):
                na = tuple(self.norm(y) if is_sym(y) else y for y in x.args)
                if na != x.args:
                    from .ops import rebuild
                    y = rebuild(x, na)
                    if y != x:
                        return self.norm(y) if is_sym(y) else y
                if x.op == "&":
                    return self._drop_mask(x)
                if x.op == "cast":
                    y = x.args[0]
                    lo, hi = (y, y) if isinstance(y, int) else self.bounds(y)
                    tl, th = (-(1 << (x.bits - 1)), (1 << (x.bits - 1)) - 1) if x.sg else (0, (1 << x.bits) - 1)
                    if lo >= tl and hi <= th:
                        return y
            return x
        if isinstance(x, Lin):
            ch = False
            r = x.c
            for a, k in x.t:
                n = self.norm(a)
                if n is not a:
                    ch = True
                r = add(r, scale(n, k) if k != 1 else n)
            return r if ch else x
        return x

    def bounds(self, l):
        c, d = parts(l)
        lo = hi = c
        for a, k in d.items():
            dl, dh = self.domain(a).bounds()
            if k > 0:
                lo += k * dl
                hi += k * dh
            else:
                lo += k * dh
                hi += k * dl
        return lo, hi

    def _ge(self, l):
        lo, hi = self.bounds(l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        return None

    def decide_ge(self, l):
        r = self._ge(l)
        if r is not None:
            return r
        nl = add(scale(l, -1), -1)  # not(l>=0)  <=>  -l-1 >= 0
        fs = [self.norm(f) for f in self.ineq]
        fs = [f for f in fs if not isinstance(f, int)]
        at = set(atoms_of(l))
        for f in fs:
            if not at.intersection(atoms_of(f)):
                continue
            d = sub(l, f)
            if self.bounds(d)[0] >= 0:
                return True
            d = sub(nl, f)
            if self.bounds(d)[0] >= 0:
                return False
        if len(fs) <= 60:
            for i, f in enumerate(fs):
                if not at.intersection(atoms_of(f)):
                    continue
                lf, nf = sub(l, f), sub(nl, f)
                for g in fs:
                    if g is f:
                        continue
                    if self.bounds(sub(lf, g))[0] >= 0:
                        return True
                    if self.bounds(sub(nf, g))[0] >= 0:
                        return False
        return None

    def decide_eq(self, l):
        if isinstance(l, int):
            return l == 0
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if norm_eq(l) in self.neq:
            return False
        for n in self.neq:
            if has_cast(n):
                m = self.norm(n)
                if not isinstance(m, int) and norm_eq(m) == norm_eq(l):
                    return False
        if isinstance(l, (Sym, App)):
            d = self.domain(l)
            if not d.has(0):
                return False
            return None
        if isinstance(l, Lin) and len(l.t) == 1:
            a, k = l.t[0]
            if l.c % k != 0:
                return False
            if not self.domain(a).has(-l.c // k):
                return False
        ge = self.decide_ge(l)
        if ge is False:
            return False
        le = self.decide_ge(scale(l, -1))
        if le is False:
            return False
        if ge and le:
            return True
        if isinstance(l, Lin) and len(l.t) == 2 and l.c == 0 and l.t[0][1] == -l.t[1][1]:
            va, vb = self.domain(l.t[0][0]).values(), self.domain(l.t[1][0]).values()
            if va is not None and vb is not None and not set(va) & set(vb):
                return False
        return None

    def decide(self, c):
        c = self._rewrite(self.norm(c))
        if isinstance(c, int):
            return bool(c)
        if not isinstance(c, Cond):
            r = self.decide_eq(c)
            return None if r is None else not r
        if isinstance(c.lin, int):
            r = (c.lin >= 0) if c.kind == "ge" else (c.lin == 0)
        elif c.kind == "ge":
            r = self.decide_ge(c.lin)
        else:
            r = self.decide_eq(c.lin)
        if r is None:
            return None
        return r != c.neg

    def assume(self, c, truth=True):
        """add a fact; returns False when it is contradictory"""
        c = self.norm(c)
        if isinstance(c, int):
            return bool(c) == truth
        if not isinstance(c, Cond):
            c = Cond("eq", c, True)
        c = self._rewrite(c)
        if not truth:
            c = neg_cond(c)
        if isinstance(c.lin, int):
            r = (c.lin >= 0) if c.kind == "ge" else (c.lin == 0)
            return r != c.neg
        if c.kind == "ge":
            l = c.lin if not c.neg else add(scale(c.lin, -1), -1)
            return self._assume_ge(l)
        if not c.neg:
            return self._assume_eq(c.lin)
        return self._assume_ne(c.lin)

    def _assume_ge(self, l):
        cc, d = parts(l)
        if len(d) == 1:
            (a, k), = d.items()
            dm = self.domain(a)
            if k > 0:
                nd = dm.restrict(lo=-(cc // k) if cc % k == 0 else -(cc // k))
            else:
                nd = dm.restrict(hi=cc // (-k))
            self.dom[a] = nd
            if nd.empty():
                return False
            self._single(a)
            return True
        r = self._ge(l)
        if r is False:
            return False
        if r is None:
            self.ineq.append(l)
            if self._flip_known(l):
                return self._assume_eq(l)
        return True

    def _flip_known(self, l):
        n = scale(l, -1)
        return any(self.norm(f) == n for f in self.ineq)

    def _single(self, a):
        v = self.domain(a).single()
        if v is not None:
            self.subst[a] = v

    def _assume_eq(self, l):
        cc, d = parts(l)
        if len(d) == 1:
            (a, k), = d.items()
            if cc % k:
                return False
            v = -cc // k
            if not self.domain(a).has(v):
                return False
            self.dom[a] = self.domain(a).only([v])
            self.subst[a] = v
            return True
        lo, hi = self.bounds(l)
        if lo > 0 or hi < 0:
            return False
        # substitute an atom with unit coefficient (prefer Apps, then later names)
        cand = [a for a, k in d.items() if abs(k) == 1]
        if cand:
            cand.sort(key=_akey)
            a = None
            for x in reversed(cand):
                # avoid cyclic substitution
                rest = mk_lin(cc, {b: q for b, q in d.items() if b != x})
                if not _occurs(x, rest):
                    a = x
                    break
            if a is None:
                return True
            k = d.pop(a)
            rhs = mk_lin(-cc * k, {b: -q * k for b, q in d.items()})
            dm = self.domain(a)
            self.subst[a] = rhs
            # carry the domain of a over to the right-hand side
            if isinstance(rhs, (Sym, App)):
                o = self.domain(rhs)
                if dm.al is not None:
                    o2 = o.only(dm.al)
                else:
                    o2 = o.restrict(dm.lo, dm.hi).without(dm.ex)
                self.dom[rhs] = o2
                if o2.empty():
                    return False
                self._single(rhs)
            else:
                if dm.lo > -TOP and self._assume_ge_raw(sub(rhs, dm.lo)) is False:
                    return False
                if dm.hi < TOP and self._assume_ge_raw(sub(dm.hi, rhs)) is False:
                    return False
            for n in list(self.neq):
                m = self.norm(n)
                if isinstance(m, int) and m == 0:
                    return False
                self.neq.add(norm_eq(m)) if not isinstance(m, int) else None
        else:
            self.ineq.append(l)
            self.ineq.append(scale(l, -1))
        return True

    def _assume_ge_raw(self, l):
        r = self._ge(l)
        if r is None:
            self.ineq.append(l)
        return r

    def _assume_ne(self, l):
        cc, d = parts(l)
        if len(d) == 1:
            (a, k), = d.items()
            if cc % k:
                return True
            v = -cc // k
            self.dom[a] = self.domain(a).without([v])
            if self.domain(a).empty():
                return False
            self._single(a)
            return True
        self.neq.add(norm_eq(l))
        # sharpen l >= 0 to l >= 1 when known
        if self.decide_ge(l):
            self.ineq.append(sub(l, 1))
        elif self.decide_ge(scale(l, -1)):
            self.ineq.append(sub(scale(l, -1), 1))
        return True


def _occurs(a, x):
    if x == a:
        return True
    if isinstance(x, Lin):
        return any(_occurs(a, b) for b, _ in x.t)
    if isinstance(x, App):
        return any(_occurs(a, b) for b in x.args if is_sym(b))
    if isinstance(x, Cond):
        return _occurs(a, x.lin)
    return False
