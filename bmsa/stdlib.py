"""Models of the parts of the standard library which programs may use in any place: algorithms (also of std::ranges), range adaptors, character
functions, strings as containers, sets, function wrappers, tuples. They work on sequences of known length and leave everything else to models.py."""
import re
from .terms import add, sub, is_sym
from . import ops
from .values import UNINIT, NULL, Cell, Ptr, ElemPtr, SymPtr, FnRef, MemPtr, Havoc, Obj, Closure, VariantObj, OptObj, \
    VecObj, SpanObj, CharSeq, StrObj, MapObj, MapIt, ViewObj, Ext, StrCell

NI = NotImplemented
NPOS = (1 << 64) - 1


def V(a):
    return a.v if isinstance(a, Cell) else a


def num(v):
    return isinstance(v, int) or is_sym(v)


def e_rec(run, e):
    return run.p.strip(e["t"]).get("n") if "t" in e else None


# ---------------------------------------------------------------------------- sequences
class Src:
    """a range of known length: cells and the iterators to them"""

    def __init__(self, run, first, n, line, cells=None, its=None):
        self.run, self.first, self.n, self.line = run, first, n, line
        self._cells, self._its = cells, its

    def cell(self, i):
        if self._cells is not None:
            return self._cells[i]
        return self.run.elem(self.first.vec, add(self.first.idx, i), self.line, True)

    def it(self, i):
        if self._its is not None:
            return self._its(i)
        return ElemPtr(self.first.vec, add(self.first.idx, i))

    def cells(self):
        for i in range(self.n):
            yield self.cell(i)


def known_len(run, v):
    if isinstance(v, (VecObj, SpanObj, StrObj)) or isinstance(v, ViewObj) and v.kind in ("transform", "reverse"):
        n = run.concrete(v.length)
        return n if isinstance(n, int) and n < 2000 else None
    return None


def entries(run, m):
    """the entries of a container of known contents, in the order of iteration"""
    l = list(m.items)
    if re.match(r"std::(map|set|multimap|multiset)\b", m.rec or ""):
        out = []
        for k, c in l:
            i = len(out)
            while i > 0 and less(run, Cell(k), Cell(out[i - 1][0])):
                i -= 1
            out.insert(i, (k, c))
        l = out
    return l


def is_set(m):
    return "set<" in (m.rec or "").split("<", 1)[0] + "<" and "bitset" not in m.rec


def entry(run, m, k, c):
    if is_set(m):
        x = Cell(k)
        x.name = None
        return x
    return Cell(run.pair(k, c))


def map_it(run, m, i):
    l = entries(run, m)
    if not 0 <= i < len(l):
        return MapIt(m, None)
    r = MapIt(m, entry(run, m, *l[i]))
    r.pos = l[i][1]
    return r


def map_pos(run, it):
    l = entries(run, it.m)
    if it.entry is None:
        return len(l)
    tag = it_tag(it)
    for i, (k, c) in enumerate(l):
        if c is tag:
            return i
    return None


def it_tag(it):
    if getattr(it, "pos", None) is not None:
        return it.pos
    if it.entry is None:
        return None
    return it.entry.v.fields["second"] if isinstance(it.entry.v, Obj) and "second" in it.entry.v.fields else None


def source(run, args, line):
    """(Src, remaining arguments) of (range, ...) or (first, last, ...); None when the length is not known"""
    a = V(args[0]) if args else None
    b = V(args[1]) if len(args) > 1 else None
    if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
        va, ia = run.base_of(a)
        vb, ib = run.base_of(b)
        if va is not vb:
            return None
        n = run.concrete(sub(ib, ia))
        if not isinstance(n, int) or n < 0 or n > 2000:
            return None
        return Src(run, a, n, line), args[2:]
    if isinstance(a, StrObj) and isinstance(b, StrObj) and a.rec is None and b.rec is None and known_len(run, a) is not None and known_len(run, b) is not None:
        if a.base is b.base or isinstance(a.base, str) and isinstance(b.base, str):
            n = a.length - b.length
            if n >= 0:
                return Src(run, ElemPtr(a, 0), n, line), args[2:]
    if isinstance(a, MapIt) and isinstance(b, MapIt) and a.m is b.m and a.m.path is None:
        i, j = map_pos(run, a), map_pos(run, b)
        if i is None or j is None or j < i:
            return None
        l = entries(run, a.m)
        return Src(run, None, j - i, line, [entry(run, a.m, k, c) for k, c in l[i:j]], lambda k, i=i, m=a.m: map_it(run, m, i + k)), args[2:]
    if isinstance(a, MapObj) and a.path is None:
        l = entries(run, a)
        return Src(run, None, len(l), line, [entry(run, a, k, c) for k, c in l], lambda k, m=a: map_it(run, m, k)), args[1:]
    n = known_len(run, a)
    if n is not None:
        return Src(run, ElemPtr(a, 0), n, line), args[1:]
    return None


class Out:
    """an output iterator"""

    def __init__(self, run, it, line):
        self.run, self.it_, self.line, self.k = run, it, line, 0

    def put(self, v):
        o = self.it_
        if isinstance(o, Obj) and o.rec == "inserter":
            c = o.fields["c"].v.cell
            push(self.run, c, v, self.line, o.fields.get("front"))
        elif isinstance(o, ElemPtr):
            self.run.store(self.run.elem(o.vec, add(o.idx, self.k), self.line, True), v)
        elif isinstance(o, Ptr):
            self.run.store(o.cell, v)
        else:
            raise Unsupported
        self.k += 1

    def end(self):
        o = self.it_
        return ElemPtr(o.vec, add(o.idx, self.k)) if isinstance(o, ElemPtr) else o


class Unsupported(Exception):
    pass


def push(run, c, v, line, front=None):
    o = c.v
    if isinstance(o, StrObj):
        it = o.items()
        if it is None or not num(v):
            raise Unsupported
        set_chars(o, it + [v])
    elif isinstance(o, VecObj):
        n = run.concrete(o.length)
        if not isinstance(n, int):
            raise Unsupported
        from . import models
        o.elems[n] = Cell(models.conv(run, v, o.et))
        o.length = n + 1
    elif isinstance(o, MapObj):
        map_insert(run, o, v)
    else:
        raise Unsupported


def set_chars(o, chars):
    o.base, o.off, o.length = CharSeq(list(chars)), 0, len(chars)
    c = o.concrete()
    if c is not None:
        o.base = c


def chars_of(a):
    """characters of a string, character or nul-terminated array"""
    if isinstance(a, StrObj):
        return a.items()
    if num(a):
        return [a]
    return None


def map_insert(run, m, v):
    from . import models
    if is_set(m):
        k, x = v, Cell(None)
    else:
        k, x = run.field(v, "first").v, Cell(run.copy_val(run.field(v, "second").v))
    r = models.map_find(run, m, Cell(k), None)
    if r is None:
        m.items.append((k, x))
        return x, 1
    return r, 0


# ---------------------------------------------------------------------------- functions
FOBJ = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!=",
        "plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "negate": "-", "logical_and": "&&", "logical_or": "||",
        "logical_not": "!", "bit_and": "&", "bit_or": "|", "bit_xor": "^", "bit_not": "~", "identity": "id"}


def fobj(rec):
    m = re.match(r"std::(?:ranges::)?(\w+)", rec or "")
    return FOBJ.get(m.group(1)) if m and not (rec or "").endswith("_fn") else None


def call_fobj(run, op, args, e=None):
    if op == "id":
        return args[0]
    if op in ("<", ">", "<=", ">="):
        return order(run, op, args[0], args[1])
    if op in ("==", "!="):
        r = int(same(run, args[0], args[1]))
        return r if op == "==" else 1 - r
    a = run.concrete(V(args[0]))
    ty = run.p.strip(e["t"]) if e and "t" in e else {}
    bits, sg = ty.get("bits", 64), ty.get("signed", ty.get("sg", True))
    if len(args) == 1:
        return ops.unary(op, run.truth(a) if op == "!" else a, bits, sg)
    b = V(args[1])
    if op == "&&":
        return int(run.decide(run.truth(a)) and run.decide(run.truth(b)))
    if op == "||":
        return int(run.decide(run.truth(a)) or run.decide(run.truth(b)))
    return ops.binary(op, a, run.concrete(b), bits, sg)


def fn_apply(run, fn, args, line=None):
    """call of any callable value; None and std::identity are the identity"""
    f = V(fn) if fn is not None else None
    if f is None:
        return args[0]
    if isinstance(f, Obj) and not isinstance(f, Closure):
        op = fobj(f.rec)
        if op is not None:
            return call_fobj(run, op, args)
        if (f.rec or "") == "negated":
            return int(not truth(run, fn_apply(run, f.fields["f"], args, line)))
    return run.apply(f, args, line)


def as_cell(v):
    return v if isinstance(v, Cell) else Cell(v)


def truth(run, v):
    v = V(v)
    if isinstance(v, Havoc):
        raise Unsupported
    return run.decide(run.truth(v))


def same(run, a, b):
    from . import models
    return truth(run, models.equal(run, a, b))


def less(run, a, b):
    r = order(run, "<", a, b)
    return truth(run, r)


def order(run, op, a, b):
    x, y = V(a), V(b)
    if num(x) and num(y):
        return ops.binary(op, run.concrete(x), run.concrete(y), 130, True)
    c = three_way(run, x, y)
    return ops.binary(op, c, 0, 130, True)


def three_way(run, x, y):
    """-1, 0 or 1"""
    from . import models
    if num(x) and num(y):
        x, y = run.concrete(x), run.concrete(y)
        if run.decide(ops.binary("<", x, y, 130, True)):
            return -1
        return 0 if run.decide(ops.binary("==", x, y, 130, True)) else 1
    if isinstance(x, StrObj) and isinstance(y, StrObj):
        r = models.compare(run, {"op": "<=>", "l": None}, [x, y])
        if not isinstance(r, int):
            raise Unsupported
        return r
    if isinstance(x, OptObj) and isinstance(y, OptObj):
        hx, hy = run.decide(x.has), run.decide(y.has)
        if not hx or not hy:
            return hx - hy
        return three_way(run, run.opt_get(x).v, run.opt_get(y).v)
    if isinstance(x, OptObj) and num(y):
        return three_way(run, run.opt_get(x).v, y) if run.decide(x.has) else -1
    if isinstance(y, OptObj) and num(x):
        return three_way(run, x, run.opt_get(y).v) if run.decide(y.has) else 1
    if isinstance(x, ElemPtr) and isinstance(y, ElemPtr):
        r = run.ptr_arith("<=>", x, y)
        return three_way(run, r, 0)
    if isinstance(x, (VecObj, SpanObj)) and isinstance(y, (VecObj, SpanObj)) and known_len(run, x) is not None and known_len(run, y) is not None:
        for i in range(min(x.length, y.length)):
            r = three_way(run, run.elem(x, i).v, run.elem(y, i).v)
            if r:
                return r
        return (x.length > y.length) - (x.length < y.length)
    if isinstance(x, Obj) and isinstance(y, Obj) and type(x) is Obj and type(y) is Obj:
        for nm in ("operator<=>", "operator<"):
            for q in (x.rec + "::" + nm, x.rec.rsplit("::", 1)[0] + "::" + nm):
                for f in run.p.by_q.get(q, []):
                    if f.get("b") and not f.get("defd"):
                        ps = [run.type_unq(p["t"]) for p in f["p"]]
                        if ps and all(p == x.rec for p in ps) and len(ps) == (1 if f.get("rec") is not None else 2):
                            call = (lambda u, v: run.call_fn(f, Cell(u), [Cell(v)])) if len(ps) == 1 else (lambda u, v: run.call_fn(f, None, [Cell(u), Cell(v)]))
                            if nm == "operator<=>":
                                return three_way(run, V(call(x, y)), 0)
                            return -1 if truth(run, call(x, y)) else 1 if truth(run, call(y, x)) else 0
        fs = [f["n"] for f in run.all_fields(x.rec)] if x.rec in run.p.records and run.p.native(x.rec)[0] not in ("pair", "tuple") else sorted(x.fields)
        for n in fs:
            r = three_way(run, run.field(x, n).v, run.field(y, n).v)
            if r:
                return r
        return 0
    raise Unsupported


def split_rest(rest, k):
    rest = list(rest) + [None] * k
    return rest[:k]


def proj(run, p, c, line):
    if p is None:
        return c
    return as_cell(fn_apply(run, p, [c], line))


def two(run, rest, line, ranges):
    """second range of an algorithm on two ranges: (Src or None when only its start is given, rest)"""
    s = source(run, rest, line)
    if s is not None:
        return s
    a = V(rest[0])
    if isinstance(a, ElemPtr):
        return Src(run, a, None, line), rest[1:]
    raise Unsupported


def rec_obj(name, **fields):
    o = Obj(name)
    for k, v in fields.items():
        o.fields[k.rstrip("_")] = v if isinstance(v, Cell) else Cell(v)
    return o


# ---------------------------------------------------------------------------- algorithms
def algorithm(run, e, name, args, rg):
    f = ALG.get(name)
    if f is None:
        return NI
    line = e.get("l")
    if name in ("min", "max", "minmax", "clamp", "swap", "exchange"):
        return f(run, e, name, args, rg)
    s = source(run, args, line)
    if s is None:
        return NI
    return f(run, e, name, s[0], list(s[1]), rg)


def a_quant(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    want = name != "all_of"
    for c in s.cells():
        if truth(run, fn_apply(run, fn, [proj(run, pj, c, s.line)], s.line)) == want:
            return int(name == "any_of")
    return int(name != "any_of")


def a_find(run, e, name, s, rest, rg):
    x, pj = split_rest(rest, 2)
    for i, c in enumerate(s.cells()):
        c = proj(run, pj, c, s.line)
        if name in ("find", "contains"):
            hit = same(run, c, x)
        else:
            hit = truth(run, fn_apply(run, x, [c], s.line)) == (name == "find_if")
        if hit:
            return 1 if name == "contains" else s.it(i)
    return 0 if name == "contains" else s.it(s.n)


def a_count(run, e, name, s, rest, rg):
    x, pj = split_rest(rest, 2)
    k = 0
    for c in s.cells():
        c = proj(run, pj, c, s.line)
        k += bool(same(run, c, x) if name == "count" else truth(run, fn_apply(run, x, [c], s.line)))
    return k


def a_foreach(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    for c in list(s.cells()):
        fn_apply(run, fn, [proj(run, pj, c, s.line)], s.line)
    return rec_obj("for_each_result", in_=s.it(s.n), fun=V(fn)) if rg else V(fn)


def a_copy(run, e, name, s, rest, rg):
    o = Out(run, V(rest[0]), s.line)
    if name == "copy_backward":
        d = o.it_
        vs = [run.copy_val(c.v) for c in s.cells()]
        for i, v in enumerate(vs):
            run.store(run.elem(d.vec, add(sub(d.idx, len(vs)), i), s.line, True), v)
        return ElemPtr(d.vec, sub(d.idx, len(vs)))
    fn, pj = split_rest(rest[1:], 2)
    for c in s.cells():
        if name in ("copy_if", "remove_copy_if"):
            if truth(run, fn_apply(run, fn, [proj(run, pj, c, s.line)], s.line)) != (name == "copy_if"):
                continue
        o.put(run.copy_val(c.v))
    if name == "reverse_copy":
        raise Unsupported
    return rec_obj("in_out_result", in_=s.it(s.n), out=o.end()) if rg else o.end()


def a_transform(run, e, name, s, rest, rg):
    second = source(run, rest, s.line) if len(rest) > 2 and rg else None
    if second is None and len(rest) == 3 and not rg:
        second = (Src(run, V(rest[0]), s.n, s.line), rest[1:])
    if second is not None:
        t, rest = second
        o = Out(run, V(rest[0]), s.line)
        for i in range(min(s.n, t.n)):
            o.put(run.copy_val(V(fn_apply(run, rest[1], [s.cell(i), t.cell(i)], s.line))))
        return o.end()
    o = Out(run, V(rest[0]), s.line)
    fn, pj = split_rest(rest[1:], 2)
    for c in s.cells():
        o.put(run.copy_val(V(fn_apply(run, fn, [proj(run, pj, c, s.line)], s.line))))
    return rec_obj("in_out_result", in_=s.it(s.n), out=o.end()) if rg else o.end()


def a_fill(run, e, name, s, rest, rg):
    for c in list(s.cells()):
        v = run.rvalue(rest[0]) if name == "fill" else V(fn_apply(run, rest[0], [], s.line)) if name == "generate" else None
        run.store(c, run.copy_val(v))
    return s.it(s.n) if rg else None


def a_iota(run, e, name, s, rest, rg):
    v = V(rest[0])
    for i, c in enumerate(list(s.cells())):
        run.store(c, add(v, i))
    return None


def a_accumulate(run, e, name, s, rest, rg):
    acc = Cell(run.copy_val(V(rest[0]))) if rest else Cell(0)
    fn = rest[1] if len(rest) > 1 else None
    t = run.p.strip(e["t"])
    for c in s.cells():
        if fn is not None:
            acc = Cell(run.copy_val(V(fn_apply(run, fn, [acc, c], s.line))))
        else:
            acc = Cell(plus(run, acc.v, c.v, t, e))
    return acc.v


def plus(run, a, b, t, e):
    if num(a) and num(b):
        return ops.binary("+", run.concrete(a), run.concrete(b), t.get("bits", 32), t.get("signed", t.get("sg", True)))
    from . import models
    r = models.compare(run, {"op": "+", "t": e["t"], "l": e.get("l")}, [Cell(a), Cell(b)])
    if r is NI:
        raise Unsupported
    return r


def a_equal(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    fn, p1, p2 = split_rest(rest, 3)
    if t.n is not None and t.n != s.n:
        return 0
    for i in range(s.n):
        a, b = proj(run, p1, s.cell(i), s.line), proj(run, p2, t.cell(i), s.line)
        if not (same(run, a, b) if fn is None else truth(run, fn_apply(run, fn, [a, b], s.line))):
            return 0
    return 1


def a_mismatch(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    fn = rest[0] if rest else None
    i = 0
    while i < s.n and (t.n is None or i < t.n):
        if not (same(run, s.cell(i), t.cell(i)) if fn is None else truth(run, fn_apply(run, fn, [s.cell(i), t.cell(i)], s.line))):
            break
        i += 1
    return rec_obj("mismatch_result", in1=s.it(i), in2=t.it(i)) if rg else rec_obj("std::pair", first=s.it(i), second=t.it(i))


def a_lexi(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    for i in range(min(s.n, t.n)):
        a, b = s.cell(i), t.cell(i)
        fn = rest[0] if rest else None
        if before(run, fn, a, b, s.line):
            return 1
        if before(run, fn, b, a, s.line):
            return 0
    return int(s.n < t.n)


def before(run, fn, a, b, line):
    if fn is None:
        return less(run, a, b)
    return truth(run, fn_apply(run, fn, [a, b], line))


def a_search(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    for i in range(s.n - t.n + 1):
        if all(same(run, s.cell(i + k), t.cell(k)) for k in range(t.n)):
            return SpanObj(None, s.first.vec, add(s.first.idx, i), t.n) if rg else s.it(i)
    return SpanObj(None, s.first.vec, add(s.first.idx, s.n), 0) if rg else s.it(s.n)


def a_firstof(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    for i in range(s.n):
        if any(same(run, s.cell(i), c) for c in t.cells()):
            return s.it(i)
    return s.it(s.n)


def a_adjacent(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    for i in range(s.n - 1):
        a, b = proj(run, pj, s.cell(i), s.line), proj(run, pj, s.cell(i + 1), s.line)
        if same(run, a, b) if fn is None else truth(run, fn_apply(run, fn, [a, b], s.line)):
            return s.it(i)
    return s.it(s.n)


def a_extreme(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    lo = hi = 0
    for i in range(1, s.n):
        x = proj(run, pj, s.cell(i), s.line)
        if before(run, fn, x, proj(run, pj, s.cell(lo), s.line), s.line):
            lo = i
        if name == "max_element" and before(run, fn, proj(run, pj, s.cell(hi), s.line), x, s.line):
            hi = i
        if name == "minmax_element" and not before(run, fn, x, proj(run, pj, s.cell(hi), s.line), s.line):
            hi = i
    if s.n == 0:
        lo = hi = 0
    if name == "minmax_element":
        return rec_obj("std::pair", first=s.it(lo), second=s.it(hi))
    return s.it(lo if name == "min_element" else hi)


def permute(run, s, vals):
    cs = list(s.cells())
    for c, v in zip(cs, vals):
        c.v = v


def a_sort(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    cs = list(s.cells())
    vals = [c.v for c in cs]
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and before(run, fn, proj(run, pj, Cell(v), s.line), proj(run, pj, Cell(out[i - 1]), s.line), s.line):
            i -= 1
        out.insert(i, v)
    permute(run, s, out)
    return s.it(s.n) if rg else None


def a_sorted(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    for i in range(1, s.n):
        if before(run, fn, proj(run, pj, s.cell(i), s.line), proj(run, pj, s.cell(i - 1), s.line), s.line):
            return 0
    return 1


def a_reverse(run, e, name, s, rest, rg):
    permute(run, s, [c.v for c in s.cells()][::-1])
    return s.it(s.n) if rg else None


def a_rotate(run, e, name, s, rest, rg):
    raise Unsupported


def a_unique(run, e, name, s, rest, rg):
    fn, pj = split_rest(rest, 2)
    keep = []
    vals = [c.v for c in s.cells()]
    for v in vals:
        if keep:
            a, b = proj(run, pj, Cell(keep[-1]), s.line), proj(run, pj, Cell(v), s.line)
            if same(run, a, b) if fn is None else truth(run, fn_apply(run, fn, [a, b], s.line)):
                continue
        keep.append(v)
    permute(run, s, keep + vals[len(keep):])
    return SpanObj(None, s.first.vec, add(s.first.idx, len(keep)), s.n - len(keep)) if rg else s.it(len(keep))


def a_remove(run, e, name, s, rest, rg):
    x, pj = split_rest(rest, 2)
    vals = [c.v for c in s.cells()]
    keep, drop = [], []
    for v in vals:
        c = proj(run, pj, Cell(v), s.line)
        hit = same(run, c, x) if name == "remove" else truth(run, fn_apply(run, x, [c], s.line))
        if name in ("partition", "stable_partition"):
            hit = not hit
        (drop if hit else keep).append(v)
    permute(run, s, keep + (drop if "partition" in name else vals[len(keep):]))
    return SpanObj(None, s.first.vec, add(s.first.idx, len(keep)), s.n - len(keep)) if rg else s.it(len(keep))


def a_replace(run, e, name, s, rest, rg):
    for c in list(s.cells()):
        if same(run, c, rest[0]) if name == "replace" else truth(run, fn_apply(run, rest[0], [c], s.line)):
            run.store(c, run.copy_val(V(rest[1])))
    return s.it(s.n) if rg else None


def a_bound(run, e, name, s, rest, rg):
    x, fn, pj = split_rest(rest, 3)
    i, n = 0, s.n
    while n > 0:
        half = n >> 1
        c = proj(run, pj, s.cell(i + half), s.line)
        if before(run, fn, c, x, s.line) if name != "upper_bound" else not before(run, fn, x, c, s.line):
            i, n = i + half + 1, n - half - 1
        else:
            n = half
    if name == "binary_search":
        return int(i < s.n and not before(run, fn, x, proj(run, pj, s.cell(i), s.line), s.line))
    return s.it(i)


def a_inner(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    acc = V(rest[0])
    ty = run.p.strip(e["t"])
    bits, sg = ty.get("bits", 32), ty.get("signed", ty.get("sg", True))
    for i in range(s.n):
        acc = ops.binary("+", run.concrete(acc), ops.binary("*", run.concrete(s.cell(i).v), run.concrete(t.cell(i).v), bits, sg), bits, sg)
    return acc


def a_swap_ranges(run, e, name, s, rest, rg):
    t, rest = two(run, rest, s.line, rg)
    for i in range(s.n):
        a, b = s.cell(i), t.cell(i)
        a.v, b.v = b.v, a.v
    return t.it(s.n)


def a_minmax(run, e, name, args, rg):
    a = V(args[0])
    ref = "lv" in e
    if name == "clamp":
        fn = args[3] if len(args) > 3 else None
        r = args[1] if before(run, fn, args[0], args[1], e.get("l")) else args[2] if before(run, fn, args[2], args[0], e.get("l")) else args[0]
        return as_cell(r) if ref else run.rvalue(r)
    if isinstance(a, (VecObj, SpanObj, StrObj, ViewObj)) and not (isinstance(a, StrObj) and not rg):
        s = source(run, args, e.get("l"))
        if s is None:
            return NI
        it = a_extreme(run, e, "max_element" if name == "max" else "min_element", s[0], list(s[1]), rg)
        return run.copy_val(run.deref(it, e.get("l")).v)
    b = V(args[1])
    if not (num(a) and num(b)) or len(args) > 2:
        fn = args[2] if len(args) > 2 else None
        x, y = (args[1], args[0]) if name == "min" else (args[0], args[1])
        r = args[1] if before(run, fn, x, y, e.get("l")) else args[0]
        return as_cell(r) if ref else run.rvalue(r)
    return NI


ALG = {}
for _n, _f in (("any_of all_of none_of", a_quant), ("find find_if find_if_not contains", a_find), ("count count_if", a_count),
               ("for_each", a_foreach), ("copy copy_if remove_copy_if move copy_backward", a_copy), ("transform", a_transform),
               ("fill generate", a_fill), ("iota", a_iota), ("accumulate reduce", a_accumulate), ("equal", a_equal), ("mismatch", a_mismatch),
               ("lexicographical_compare", a_lexi), ("search", a_search), ("find_first_of", a_firstof), ("adjacent_find", a_adjacent),
               ("min_element max_element minmax_element", a_extreme), ("sort stable_sort", a_sort), ("is_sorted", a_sorted), ("reverse", a_reverse),
               ("unique", a_unique), ("remove remove_if partition stable_partition", a_remove), ("replace replace_if", a_replace),
               ("lower_bound upper_bound binary_search", a_bound), ("inner_product", a_inner), ("swap_ranges", a_swap_ranges),
               ("min max clamp", a_minmax)):
    for _k in _n.split():
        ALG[_k] = _f


def n_algorithm(run, e, name, args):
    """copy_n, fill_n, for_each_n, generate_n"""
    line = e.get("l")
    first, n = V(args[0]), run.concrete(V(args[1]))
    if not isinstance(n, int) or n > 2000:
        return NI
    if name == "fill_n" or name == "generate_n":
        o = Out(run, first, line)
        for _ in range(max(n, 0)):
            o.put(run.copy_val(V(args[2])) if name == "fill_n" else V(fn_apply(run, args[2], [], line)))
        return o.end()
    if not isinstance(first, ElemPtr):
        return NI
    s = Src(run, first, max(n, 0), line)
    if name == "copy_n":
        return a_copy(run, e, "copy", s, args[2:], False)
    a_foreach(run, e, "for_each", s, args[2:], False)
    return s.it(s.n)


# ---------------------------------------------------------------------------- range adaptors
def view_of(run, e, kind, base, arg):
    """value of an adaptor applied to a range"""
    rec = e_rec(run, e)
    v = V(base)
    if kind in ("transform", "reverse"):
        if isinstance(v, (VecObj, SpanObj, StrObj, ViewObj)):
            return ViewObj(rec, kind, v, V(arg) if arg is not None else None)
    if kind in ("all", "common", "as_rvalue"):
        return v
    s = source(run, [base], e.get("l"))
    if s is None:
        return NI
    s = s[0]
    n = run.concrete(V(arg)) if arg is not None and num(V(arg)) else None
    if kind in ("take", "drop"):
        if not isinstance(n, int):
            n = run.split_value(n)
        k = min(n, s.n)
        lo, hi = (0, k) if kind == "take" else (k, s.n)
        if s.first is not None:
            return SpanObj(rec, s.first.vec, add(s.first.idx, lo), hi - lo)
        return listed(rec, list(s.cells())[lo:hi])
    cells = list(s.cells())
    if kind == "filter":
        return listed(rec, [c for c in cells if truth(run, fn_apply(run, arg, [c], e.get("l")))])
    if kind in ("take_while", "drop_while"):
        i = 0
        while i < len(cells) and truth(run, fn_apply(run, arg, [cells[i]], e.get("l"))):
            i += 1
        return listed(rec, cells[:i] if kind == "take_while" else cells[i:])
    if kind in ("keys", "values", "elements"):
        return listed(rec, [run.tuple_elem(c.v, 0 if kind == "keys" else 1) for c in cells])
    if kind in ("transform", "reverse"):
        if kind == "reverse":
            return listed(rec, cells[::-1])
        return listed(rec, [as_cell(fn_apply(run, arg, [c], e.get("l"))) for c in cells])
    return NI


def listed(rec, cells):
    v = VecObj(None, None, len(cells), None, "vector")
    v.elems = dict(enumerate(cells))
    return v


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def adaptor(run, e, args):
    q, n = e["q"], e["n"]
    if n == "operator()":
        m = re.search(r"views::_(\w+?)(?:<[^:]*>)?>?::operator\(\)", q)
        if m:
            kind = snake(m.group(1))
            if kind == "iota":
                a = run.concrete(V(args[0]))
                if len(args) < 2:
                    return NI
                b = run.concrete(V(args[1]))
                if not isinstance(a, int):
                    a = run.split_value(a)
                if not isinstance(b, int):
                    return NI
                return listed(None, [Cell(i) for i in range(a, b)])
            if kind in ("keys", "values", "elements", "reverse", "all", "common"):
                return view_of(run, e, kind, args[0], None)
            if len(args) == 2:
                return view_of(run, e, kind, args[0], args[1])
            if len(args) == 1:
                c = ViewObj("adaptor", "closure", None, V(args[0]))
                c.name = kind
                return c
        return NI
    if n == "operator|" and len(args) == 2:
        c = V(args[1])
        if isinstance(c, ViewObj) and c.kind == "closure":
            return view_of(run, e, c.name, args[0], c.fn)
        if isinstance(c, Obj):
            m = re.search(r"views::_(\w+?)(?:<.*)?$", c.rec or "")
            if m:
                k = snake(m.group(1))
                if k == "elements" and ("<1" in c.rec):
                    k = "values"
                elif k == "elements":
                    k = "keys"
                return view_of(run, e, k, args[0], None)
    return NI


# ---------------------------------------------------------------------------- characters
CLS = {
    "isalpha": lambda c: chr(c).isalpha(), "isdigit": lambda c: 48 <= c < 58, "isalnum": lambda c: chr(c).isalnum(),
    "isspace": lambda c: c in (32, 9, 10, 11, 12, 13), "isupper": lambda c: 65 <= c < 91, "islower": lambda c: 97 <= c < 123,
    "isxdigit": lambda c: chr(c) in "0123456789abcdefABCDEF", "ispunct": lambda c: 33 <= c < 127 and not chr(c).isalnum(),
    "isprint": lambda c: 32 <= c < 127, "isgraph": lambda c: 33 <= c < 127, "iscntrl": lambda c: c < 32 or c == 127, "isblank": lambda c: c in (32, 9),
}


def char_class(run, n, c):
    c = run.concrete(c)
    f = CLS[n]
    yes = [x for x in range(128) if f(x)]
    return int(run.member(c, yes))


def char_case(run, n, c):
    c = run.concrete(c)
    lo, d = (97, -32) if n == "toupper" else (65, 32)
    if run.member(c, list(range(lo, lo + 26))):
        return add(c, d)
    return c


def cstrlen(run, v):
    if isinstance(v, StrObj):
        it = v.items()
        if it is None:
            return v.length
        for i, c in enumerate(it):
            if run.member(c, [0]):
                return i
        return len(it)
    return NI


# ---------------------------------------------------------------------------- free functions
def free(run, e, args):
    q, n = e["q"], e["n"]
    b = q[5:] if q.startswith("std::") else q
    if b in CLS and len(args) == 1 and num(V(args[0])):
        return char_class(run, b, V(args[0]))
    if b in ("toupper", "tolower") and len(args) == 1 and num(V(args[0])):
        return char_case(run, b, V(args[0]))
    if b in ("strlen",) or q == "std::char_traits<char>::length":
        return cstrlen(run, V(args[0]))
    if b == "strcmp" and all(isinstance(V(a), StrObj) for a in args):
        return three_way(run, V(args[0]), V(args[1]))
    if b in ("memcmp", "strncmp") and isinstance(V(args[0]), StrObj) and isinstance(V(args[1]), StrObj):
        k = run.concrete(V(args[2]))
        if isinstance(k, int):
            return three_way(run, StrObj(None, V(args[0]).base, V(args[0]).off, k), StrObj(None, V(args[1]).base, V(args[1]).off, k))
    if not q.startswith("std::"):
        return NI
    if b == "visit":
        return f_visit(run, e, args)
    if b in ("make_tuple", "tie", "forward_as_tuple"):
        o = Obj(e_rec(run, e) or "std::tuple")
        for i, a in enumerate(args):
            o.fields["_%d" % i] = Cell(run.rvalue(a)) if b == "make_tuple" else as_cell(a)
        return o
    if b == "make_pair":
        return rec_obj(e_rec(run, e) or "std::pair", first=run.rvalue(args[0]), second=run.rvalue(args[1]))
    if b == "make_optional":
        return NI
    if b == "back_inserter" or b == "inserter" or b == "front_inserter":
        if b == "front_inserter":
            return NI
        return rec_obj("inserter", c=Ptr(args[0]))
    if b in ("ref", "cref"):
        return rec_obj("std::reference_wrapper", r=Ptr(args[0]))
    if b == "mem_fn":
        return V(args[0])
    if b == "not_fn":
        return rec_obj("negated", f=V(args[0]))
    if b == "apply":
        t = V(args[1])
        if isinstance(t, Obj):
            cs = [t.fields["first"], t.fields["second"]] if "first" in t.fields else [t.fields["_%d" % i] for i in range(len(t.fields))]
            return fn_apply(run, args[0], cs, e.get("l"))
    if b in ("cmp_less", "cmp_greater", "cmp_less_equal", "cmp_greater_equal", "cmp_equal", "cmp_not_equal"):
        op = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[b[4:]]
        return ops.binary(op, run.concrete(V(args[0])), run.concrete(V(args[1])), 130, True)
    if b in ("popcount", "countr_zero", "countl_zero", "bit_width", "has_single_bit", "countr_one", "bit_ceil", "bit_floor"):
        x = run.concrete(V(args[0]))
        bits = run.p.strip(e["pt"][0]).get("bits", 64) if e.get("pt") else 64
        if isinstance(x, int):
            x &= (1 << bits) - 1
            return {"popcount": bin(x).count("1"), "countr_zero": bits if x == 0 else (x & -x).bit_length() - 1, "countl_zero": bits - x.bit_length(),
                    "bit_width": x.bit_length(), "has_single_bit": int(x != 0 and x & (x - 1) == 0), "countr_one": ((x + 1) & ~x).bit_length() - 1,
                    "bit_ceil": 1 if x < 2 else 1 << (x - 1).bit_length(), "bit_floor": 0 if x == 0 else 1 << (x.bit_length() - 1)}[b]
        return NI
    if b in ("rbegin", "crbegin", "rend", "crend"):
        return rev_it(run, V(args[0]), b.endswith("end"))
    if b == "make_reverse_iterator":
        p = V(args[0])
        return reverse_of(run, p)
    if b in ("begin", "cbegin", "end", "cend") and isinstance(V(args[0]), MapObj) and V(args[0]).path is None:
        return map_it(run, V(args[0]), 0) if "begin" in b else MapIt(V(args[0]), None)
    if b == "advance":
        p, k = V(args[0]), V(args[1])
        if isinstance(p, ElemPtr):
            args[0].v = ElemPtr(p.vec, add(p.idx, k))
            return None
        return NI
    if b == "iter_swap":
        x, y = run.deref(V(args[0]), e.get("l")), run.deref(V(args[1]), e.get("l"))
        t = run.copy_val(x.v)
        run.store(x, run.copy_val(y.v))
        run.store(y, t)
        return None
    if b in ("erase", "erase_if") and len(args) == 2:
        o = V(args[0])
        n0 = known_len(run, o) if not isinstance(o, MapObj) else None
        if isinstance(o, MapObj) and o.path is None and b == "erase_if":
            keep = [(k, c) for k, c in o.items if not truth(run, fn_apply(run, args[1], [entry(run, o, k, c)], e.get("l")))]
            k = len(o.items) - len(keep)
            o.items = keep
            return k
        if n0 is None:
            return NI
        s = source(run, [o], e.get("l"))[0]
        keep = []
        for c in s.cells():
            if not (same(run, c, args[1]) if b == "erase" else truth(run, fn_apply(run, args[1], [c], e.get("l")))):
                keep.append(c.v)
        set_items(run, o, keep)
        return n0 - len(keep)
    if b in ("make_shared", "allocate_shared"):
        fta = e.get("fta") or []
        from . import models
        o = rec_obj("std::shared_ptr", p=Ptr(Cell(models.build(run, fta[0][1], args[1:] if b[0] == "a" else args, e))))
        return o
    if b in ("min", "max", "clamp"):
        return a_minmax(run, e, b, args, False)
    if b in ("copy_n", "fill_n", "for_each_n", "generate_n"):
        return n_algorithm(run, e, b, args)
    if b == "move" and len(args) == 3 or b != "move" and b in ALG:
        return algorithm(run, e, b, args, False)
    return NI


def set_items(run, o, vals):
    if isinstance(o, StrObj):
        set_chars(o, vals)
    else:
        o.elems = {i: Cell(v) for i, v in enumerate(vals)}
        o.length = len(vals)


def f_visit(run, e, args):
    vs = [V(a) for a in args[1:]]
    if not vs or not all(isinstance(v, VariantObj) for v in vs):
        return NI
    cells, types = [], []
    for v in vs:
        i = run.split_value(v.idx)
        cells.append(run.variant_cell(v, i))
        types.append(run.type_unq(v.alts[i]))
    return call_typed(run, V(args[0]), cells, types, e.get("l"))


def call_typed(run, fv, cells, types, line):
    cands = []
    if isinstance(fv, Closure):
        cands = [(run.p.funcs[k], fv) for k in fv.node["ops"] if k in run.p.funcs]
    elif isinstance(fv, Obj):
        todo = [(fv, fv.rec)]
        while todo:
            o, r = todo.pop(0)
            if isinstance(o, Closure):
                cands += [(run.p.funcs[k], o) for k in o.node["ops"] if k in run.p.funcs]
                continue
            cands += [(run.p.funcs[k], c) for c in getattr(o, "closures", ()) for k in c.node["ops"] if k in run.p.funcs]
            rr = run.p.records.get(r)
            for m in (rr or {}).get("methods", []):
                if m["n"] == "operator()" and m["f"] in run.p.funcs:
                    cands.append((run.p.funcs[m["f"]], o))
            for b in (rr or {}).get("bases", []):
                bt = run.p.types[b]
                if bt["k"] == "rec":
                    c = o.fields.get("#base:" + bt["n"]) or o.fields.get(bt["n"])
                    todo.append((c.v if c is not None else o, bt["n"]))
            for c in o.fields.values():
                if isinstance(c.v, Closure):
                    todo.append((c.v, None))
    cands = [(f, o) for f, o in cands if len(f["p"]) == len(cells)]
    exact = [(f, o) for f, o in cands if [run.type_unq(p["t"]) for p in f["p"]] == types]
    pick = exact or (cands if len(cands) == 1 else [])
    if pick:
        return run.call_fn(pick[0][0], Cell(pick[0][1]), cells, by_decl=True)
    return run.apply(fv, cells, line)


def reverse_view(o):
    v = getattr(o, "_rev", None)
    if v is None:
        v = ViewObj(None, "reverse", o)
        o._rev = v
    return v


def rev_it(run, o, end):
    if isinstance(o, (VecObj, SpanObj, StrObj, ViewObj)):
        return ElemPtr(reverse_view(o), o.length if end else 0)
    return NI


def reverse_of(run, p):
    """reverse iterator from an iterator"""
    if isinstance(p, ElemPtr):
        if isinstance(p.vec, ViewObj) and p.vec.kind == "reverse":
            return p
        return ElemPtr(reverse_view(p.vec), sub(p.vec.length, p.idx))
    return NI


# ---------------------------------------------------------------------------- methods
def method(run, e, cell, o, n, args):
    q = e["q"]
    rec = o.rec if isinstance(o, Obj) else None
    if isinstance(o, Closure) or isinstance(o, FnRef):
        if q.startswith("std::function") or q.startswith("std::move_only_function"):
            if n == "operator bool":
                return 1
            if n == "operator()":
                return fn_apply(run, o, args, e.get("l"))
            if n == "operator=":
                cell.v = V(args[0])
                return cell
        return NI
    if q.startswith("std::function") and n == "operator bool" and o is NULL:
        return 0
    if q.startswith("std::function") and n == "operator=":
        cell.v = V(args[0])
        return cell
    if isinstance(o, Obj) and rec == "std::reference_wrapper":
        if n == "get" or n.startswith("operator") and n != "operator()" and n != "operator=":
            return o.fields["r"].v.cell
        if n == "operator()":
            return fn_apply(run, o.fields["r"].v.cell, args, e.get("l"))
    if isinstance(o, Obj) and rec == "std::shared_ptr":
        if n in ("get", "operator->"):
            return o.fields["p"].v
        if n == "operator*":
            return run.deref(o.fields["p"].v, e.get("l"))
        if n == "operator bool":
            return run.truth(o.fields["p"].v)
        if n in ("reset", "operator="):
            a = V(args[0]) if args else NULL
            o.fields["p"].v = a.fields["p"].v if isinstance(a, Obj) and "p" in a.fields else a
            return cell
    if isinstance(o, Obj) and rec == "inserter":
        if n in ("operator*", "operator++"):
            return cell
        if n == "operator=":
            push(run, o.fields["c"].v.cell, run.rvalue(args[0]), e.get("l"))
            return cell
    if isinstance(o, Ext) and "p" in o.fields and n == "swap":
        a = V(args[0])
        o.fields["p"].v, a.fields["p"].v = a.fields["p"].v, o.fields["p"].v
        return None
    if isinstance(o, Obj) and n == "operator()" and not isinstance(o, Closure):
        op = fobj(rec)
        if op is not None:
            return call_fobj(run, op, args, e)
        if rec == "negated":
            return fn_apply(run, o, args, e.get("l"))
    if isinstance(o, MemPtr) and n == "operator()":
        return run.apply(o, args, e.get("l"))
    if isinstance(o, FnRef) and n == "operator()":
        return run.apply(o, args, e.get("l"))
    if isinstance(o, (ElemPtr, SpanObj)) and n == "base" and isinstance(o, ElemPtr) and isinstance(o.vec, ViewObj) and o.vec.kind == "reverse":
        return ElemPtr(o.vec.base, sub(o.vec.base.length, o.idx))
    if isinstance(o, ElemPtr) and n == "operator-=":
        cell.v = ElemPtr(o.vec, sub(o.idx, V(args[0])))
        return cell
    if isinstance(o, MapIt):
        if o.entry is not None and is_set(o.m) and n in ("operator*", "operator->"):
            return o.entry if n == "operator*" else Ptr(o.entry)
        if n in ("operator++", "operator--") and o.m.path is None:
            i = map_pos(run, o)
            if i is None:
                return NI
            cell.v = map_it(run, o.m, i + (1 if n == "operator++" else -1))
            return o if args else cell
    if isinstance(o, MapObj):
        return map_method(run, e, cell, o, n, args)
    if isinstance(o, VecObj) and o.kind != "bitset":
        return vec_method(run, e, cell, o, n, args)
    if isinstance(o, (SpanObj, ViewObj)) and n in ("rbegin", "rend", "crbegin", "crend"):
        return rev_it(run, o, n.endswith("end"))
    if isinstance(o, StrObj):
        return str_method(run, e, cell, o, n, args)
    if isinstance(o, Obj) and type(o) is Obj and n == "operator=" and len(args) == 1:
        nat = run.p.native(rec)[0] if rec else None
        if nat == "tuple" or rec == "std::tuple":
            a = V(args[0])
            if isinstance(a, Obj):
                src = [a.fields["first"], a.fields["second"]] if "first" in a.fields else [a.fields["_%d" % i] for i in range(len(a.fields))]
                vals = [run.copy_val(c.v) for c in src]
                for i, v in enumerate(vals):
                    run.store(o.fields["_%d" % i], v)
                return cell
    if isinstance(o, Obj) and n == "swap" and type(o) is Obj and "first" in o.fields and q.startswith("std::pair"):
        return NI
    if isinstance(o, OptObj) and n == "swap":
        a = args[0]
        t = run.copy_val(a.v)
        a.v.assign(run.copy_val(o))
        o.assign(t)
        return None
    return NI


def map_method(run, e, cell, o, n, args):
    if o.path is not None:
        return NI
    from . import models
    if n in ("begin", "cbegin"):
        return map_it(run, o, 0)
    if n in ("end", "cend"):
        return MapIt(o, None)
    if n in ("empty", "size"):
        return len(o.items) if n == "size" else int(not o.items)
    if n == "swap":
        a = V(args[0])
        o.items, a.items = a.items, o.items
        return None
    if n == "reserve":
        return None
    if n == "erase" and len(args) == 1:
        a = V(args[0])
        if isinstance(a, MapIt):
            i = map_pos(run, a)
            l = entries(run, o)
            if i is None or i >= len(l):
                return NI
            o.items = [x for x in o.items if x[1] is not l[i][1]]
            return map_it(run, o, i)
        for i, (k, c) in enumerate(o.items):
            if same(run, Cell(k), args[0]):
                del o.items[i]
                return 1
        return 0
    if is_set(o):
        if n in ("insert", "emplace"):
            if len(args) == 2 and n == "insert":
                s = source(run, args, e.get("l"))
                if s is None:
                    return NI
                for c in s[0].cells():
                    set_add(run, o, run.copy_val(c.v))
                return None
            c, ok = set_add(run, o, run.rvalue(args[0]))
            return rec_obj("std::pair", first=c, second=ok)
        if n in ("contains", "count", "find"):
            for k, c in o.items:
                if same(run, Cell(k), args[0]):
                    it = MapIt(o, Cell(k))
                    it.pos = c
                    return it if n == "find" else 1
            return MapIt(o, None) if n == "find" else 0
        return NI
    if n in ("lower_bound", "upper_bound"):
        l = entries(run, o)
        for i, (k, c) in enumerate(l):
            if (not less(run, Cell(k), args[0])) if n == "lower_bound" else less(run, args[0], Cell(k)):
                return map_it(run, o, i)
        return MapIt(o, None)
    if n == "try_emplace" and len(args) != 2 or n == "emplace" and len(args) > 2:
        r = models.map_find(run, o, args[0], e)
        if r is not None:
            it = MapIt(o, r)
            return rec_obj("std::pair", first=it, second=0)
        nat, ta = run.p.native(o.rec)
        c = Cell(models.build(run, ta[1][1], args[1:], e))
        k = run.rvalue(args[0])
        o.items.append((k, c))
        return rec_obj("std::pair", first=MapIt(o, Cell(run.pair(k, c))), second=1)
    return NI


def set_add(run, o, v):
    for k, c in o.items:
        if same(run, Cell(k), Cell(v)):
            it = MapIt(o, Cell(k))
            it.pos = c
            return it, 0
    c = Cell(None)
    o.items.append((v, c))
    it = MapIt(o, Cell(v))
    it.pos = c
    return it, 1


def vec_method(run, e, cell, o, n, args):
    l = e.get("l")
    if n in ("rbegin", "rend", "crbegin", "crend"):
        return rev_it(run, o, n.endswith("end"))
    ln = run.concrete(o.length)
    if not isinstance(ln, int) or o.path is not None:
        return NI
    if n == "resize" and len(args) == 2:
        m = run.concrete(V(args[0]))
        if not isinstance(m, int):
            return NI
        for i in range(ln, m):
            o.elems[i] = Cell(run.copy_val(V(args[1])))
        for i in range(m, ln):
            o.elems.pop(i, None)
        o.length = m
        return None
    if n == "assign":
        vals = None
        if len(args) == 2 and num(V(args[0])) and (not e.get("pt") or run.p.strip(e["pt"][0])["k"] == "int"):
            k = run.concrete(V(args[0]))
            if isinstance(k, int):
                vals = [run.copy_val(V(args[1])) for _ in range(k)]
        else:
            s = source(run, args, l)
            if s is not None:
                vals = [run.copy_val(c.v) for c in s[0].cells()]
        if vals is None:
            return NI
        set_items(run, o, vals)
        return None
    if n in ("insert", "emplace") and not run.opts.get("on_insert"):
        pos = V(args[0])
        if not isinstance(pos, ElemPtr):
            return NI
        i = run.concrete(pos.idx)
        if not isinstance(i, int):
            return NI
        rest = args[1:]
        from . import models
        if n == "emplace":
            vals = [models.emplace_value(run, o.et, e, rest)]
        elif len(rest) == 1:
            a = V(rest[0])
            if isinstance(a, VecObj) and e.get("pt") and "initializer_list" in run.p.strip(e["pt"][-1]).get("s", ""):
                vals = [run.copy_val(run.elem(a, k).v) for k in range(a.length)]
            else:
                vals = [models.conv(run, run.rvalue(rest[0]), o.et)]
        elif num(V(rest[0])) and not isinstance(V(rest[0]), ElemPtr):
            k = run.concrete(V(rest[0]))
            if not isinstance(k, int):
                return NI
            vals = [run.copy_val(V(rest[1])) for _ in range(k)]
        else:
            s = source(run, rest, l)
            if s is None:
                return NI
            vals = [run.copy_val(c.v) for c in s[0].cells()]
        if not 0 <= i <= ln:
            run.event("oob", "insert at %d, length %d" % (i, ln), run.where(l))
            from .models import raise_end
            raise_end("out of bounds")
        cells = [run.elem(o, k) for k in range(ln)]
        cells[i:i] = [Cell(v) for v in vals]
        o.elems = dict(enumerate(cells))
        o.length = len(cells)
        return ElemPtr(o, i)
    if n == "erase":
        a = V(args[0])
        if not isinstance(a, ElemPtr):
            return NI
        i = run.concrete(a.idx)
        j = run.concrete(V(args[1]).idx) if len(args) > 1 else add(i, 1)
        if not isinstance(i, int) or not isinstance(j, int):
            return NI
        if not (0 <= i <= j <= ln):
            run.event("oob", "erase of [%d, %d), length %d" % (i, j, ln), run.where(l))
            from .models import raise_end
            raise_end("out of bounds")
        cells = [run.elem(o, k) for k in range(ln)]
        del cells[i:j]
        o.elems = dict(enumerate(cells))
        o.length = len(cells)
        return ElemPtr(o, i)
    if n == "capacity":
        return max(ln, 8)
    if n == "max_size":
        return (1 << 62) - 1
    return NI


STR_POS = ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of")


def str_method(run, e, cell, o, n, args):
    l = e.get("l")
    its = o.items()
    if n in ("rbegin", "rend", "crbegin", "crend"):
        return rev_it(run, o, n.endswith("end"))
    if its is None:
        return NI
    if n in ("operator[]", "front", "back", "at"):
        if "lv" not in e or not its:
            return NI
        i = run.concrete(V(args[0])) if args else 0 if n == "front" else len(its) - 1
        if isinstance(i, int) and 0 <= i < len(its) and not (run.on_index and n in ("operator[]", "at")):
            return StrCell(run, o, i)
        return NI
    if n in STR_POS:
        a = V(args[0])
        want = chars_of(a)
        if want is None:
            return NI
        pos = run.concrete(V(args[1])) if len(args) > 1 else 0 if n in ("find", "find_first_of", "find_first_not_of") else NPOS
        if len(args) > 2:
            k = run.concrete(V(args[2]))
            if not isinstance(k, int):
                return NI
            want = want[:k]
        if not isinstance(pos, int):
            return NI
        pos &= NPOS
        known = all(isinstance(c, int) for c in want)
        if known and len(args) <= 2 and pos == (0 if n in ("find", "find_first_of", "find_first_not_of") else NPOS):
            return NI                       # modelled
        size = len(its)

        def hit(i, c):
            if isinstance(c, int):
                return run.member(run.char_at(o, i), [ops.wrap(c, 8, True)])
            return truth(run, ops.binary("==", run.char_at(o, i), run.concrete(c), 8, True))
        if n in ("find", "rfind"):
            r = range(pos, size - len(want) + 1) if n == "find" else range(min(pos, size - len(want)), -1, -1)
            for i in r:
                if all(hit(i + k, c) for k, c in enumerate(want)):
                    return i
            return NPOS
        r = range(pos, size) if "first" in n else range(min(pos, size - 1), -1, -1)
        if "not" not in n and len(want) == 1 and is_sym(run.concrete(want[0])) and all(isinstance(c, int) for c in its):
            if not run.member(run.concrete(want[0]), [ops.wrap(its[i], 8, True) for i in r]):
                return NPOS
            for i in r:
                if hit(i, want[0]):
                    return i
            return NPOS
        for i in r:
            x = run.member(run.char_at(o, i), [ops.wrap(c, 8, True) for c in want]) if known else any(hit(i, c) for c in want)
            if x == ("not" not in n):
                return i
        return NPOS
    if n == "contains":
        want = chars_of(V(args[0]))
        if want is None:
            return NI
        for i in range(len(its) - len(want) + 1):
            if all(truth(run, ops.binary("==", run.char_at(o, i + k), run.concrete(c), 8, True)) for k, c in enumerate(want)):
                return 1
        return 0
    if n in ("starts_with", "ends_with"):
        want = chars_of(V(args[0]))
        if want is None or not any(is_sym(c) for c in want):
            return NI
        if len(want) > len(its):
            return 0
        base = 0 if n == "starts_with" else len(its) - len(want)
        return int(all(truth(run, ops.binary("==", run.char_at(o, base + k), run.concrete(c), 8, True)) for k, c in enumerate(want)))
    if n == "compare" and len(args) >= 3:
        p, k = run.concrete(V(args[0])), run.concrete(V(args[1]))
        a = V(args[2])
        if isinstance(p, int) and isinstance(k, int) and isinstance(a, StrObj):
            return three_way(run, StrObj(None, o.base, o.off + p, min(k, len(its) - p)), a)
        return NI
    if n == "copy" and isinstance(V(args[0]), ElemPtr):
        k = min(run.concrete(V(args[1])), len(its))
        out = Out(run, V(args[0]), l)
        for c in its[:k]:
            out.put(c)
        return k
    # modifications
    if n == "pop_back":
        if not its:
            from . import models
            models.nonempty(run, o, l, "pop_back")
        set_chars(o, its[:-1])
        return None
    if n == "resize":
        m = run.concrete(V(args[0]))
        if not isinstance(m, int):
            return NI
        fill = V(args[1]) if len(args) > 1 else 0
        set_chars(o, its[:m] + [fill] * (m - len(its)))
        return None
    if n in ("assign", "operator=") and len(args) == 1 and isinstance(V(args[0]), StrObj):
        a = V(args[0])
        o.base, o.off, o.length = a.base, a.off, a.length       # a view stays a part of what it was made from
        return cell if "lv" in e else None
    if n in ("append", "assign", "operator+=", "operator=") and args:
        new = string_args(run, e, args, l)
        if new is None:
            return NI
        set_chars(o, new if n in ("assign", "operator=") else its + new)
        return cell if "lv" in e else None
    if n in ("insert", "replace", "erase"):
        return str_edit(run, e, cell, o, n, args, its)
    if n == "swap":
        a = V(args[0])
        if isinstance(a, StrObj):
            o.base, o.off, o.length, a.base, a.off, a.length = a.base, a.off, a.length, o.base, o.off, o.length
            return None
    return NI


def string_args(run, e, args, l):
    """characters described by the arguments of append, assign and so on"""
    a = V(args[0])
    if len(args) == 1:
        if isinstance(a, VecObj) and known_len(run, a) is not None:
            return [run.elem(a, i).v for i in range(a.length)]
        return list(chars_of(a)) if chars_of(a) is not None else None
    b = V(args[1])
    if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
        s = source(run, args, l)
        return None if s is None else [c.v for c in s[0].cells()]
    if isinstance(a, StrObj):
        it = a.items()
        k = run.concrete(b)
        if it is None or not isinstance(k, int):
            return None
        if len(args) == 3:
            m = run.concrete(V(args[2]))
            return it[k:k + m] if isinstance(m, int) else None
        pt = run.p.strip(e["pt"][0]) if e.get("pt") else {}
        return it[:k] if pt.get("k") == "ptr" else it[k:]
    if num(a) and num(b):
        k = run.concrete(a)
        return [b] * k if isinstance(k, int) else None
    return None


def str_edit(run, e, cell, o, n, args, its):
    l = e.get("l")
    a = V(args[0]) if args else 0
    if isinstance(a, ElemPtr):
        i = run.concrete(a.idx)
        if n == "erase":
            j = run.concrete(V(args[1]).idx) if len(args) > 1 else i + 1
            new = []
        elif n == "insert":
            j = i
            rest = args[1:]
            if len(rest) == 2 and num(V(rest[0])):
                k = run.concrete(V(rest[0]))
                new = [V(rest[1])] * k if isinstance(k, int) else None
            else:
                new = string_args(run, {}, rest, l)
        else:
            j = run.concrete(V(args[1]).idx)
            new = string_args(run, {}, args[2:], l)
        iterator = True
    else:
        i = run.concrete(a)
        iterator = False
        if n == "erase":
            k = run.concrete(V(args[1])) if len(args) > 1 else NPOS
            j = min(i + k, len(its)) if isinstance(i, int) and isinstance(k, int) else None
            new = []
        elif n == "insert":
            j = i
            new = string_args(run, dict(e, pt=(e.get("pt") or [])[1:]), args[1:], l)
        else:
            k = run.concrete(V(args[1]))
            j = min(i + k, len(its)) if isinstance(i, int) and isinstance(k, int) else None
            new = string_args(run, dict(e, pt=(e.get("pt") or [])[2:]), args[2:], l)
    if not isinstance(i, int) or not isinstance(j, int) or new is None:
        return NI
    if not 0 <= i <= j <= len(its):
        from .models import throw
        raise throw(run, "std::out_of_range", e)
    set_chars(o, its[:i] + new + its[j:])
    return ElemPtr(o, i) if iterator else cell


# ---------------------------------------------------------------------------- operators
def operator(run, e, args):
    op = e["op"]
    a, b = V(args[0]), V(args[1]) if len(args) > 1 else None
    if op in ("==", "!="):
        if isinstance(a, MapIt) and isinstance(b, MapIt) and (is_set(a.m) or getattr(a, "pos", None) is not None or getattr(b, "pos", None) is not None):
            r = int(it_tag(a) is it_tag(b))
            return r if op == "==" else 1 - r
        if isinstance(a, VecObj) and isinstance(b, VecObj) and known_len(run, a) is not None and known_len(run, b) is not None:
            r = int(a.length == b.length and all(same(run, run.elem(a, i), run.elem(b, i)) for i in range(a.length)))
            return r if op == "==" else 1 - r
        if isinstance(a, Obj) and isinstance(b, Obj) and type(a) is Obj and type(b) is Obj and a.rec and re.match(r"std::(pair|tuple)\b", a.rec):
            ks = sorted(a.fields)
            r = int(all(k in b.fields and same(run, a.fields[k], b.fields[k]) for k in ks))
            return r if op == "==" else 1 - r
        if isinstance(a, Obj) and a.rec == "std::shared_ptr" or isinstance(b, Obj) and b.rec == "std::shared_ptr":
            x = a.fields["p"].v if isinstance(a, Obj) and "p" in a.fields else a
            y = b.fields["p"].v if isinstance(b, Obj) and "p" in b.fields else b
            x = NULL if isinstance(x, Ext) else x
            y = NULL if isinstance(y, Ext) else y
            return run.ptr_cmp(op, x, y)
        return NI
    if op in ("<", ">", "<=", ">=", "<=>"):
        lit = "__unspec" in (getattr(b, "rec", None) or "") or type(b) is Ext and num(a) or b is NULL and num(a)
        if num(a) and lit:
            return ops.binary(op, run.concrete(a), 0, 130, True) if op != "<=>" else a
        if (isinstance(a, (OptObj, VecObj)) or isinstance(b, OptObj) or isinstance(a, Obj) and type(a) is Obj and type(b) is Obj and a.rec
                and (re.match(r"std::(pair|tuple)\b", a.rec) or e.get("defd"))):
            if isinstance(a, Ext) or isinstance(b, Ext):
                return NI
            c = three_way(run, a, b)
            return c if op == "<=>" else ops.binary(op, c, 0, 130, True)
        return NI
    if op == "+":
        x, y = chars_of(a), chars_of(b)
        if (isinstance(a, StrObj) or isinstance(b, StrObj)) and x is not None and y is not None and not (isinstance(a, StrObj) and a.concrete() is not None and
                isinstance(b, StrObj) and b.concrete() is not None):
            o = StrObj(e_rec(run, e), "")
            set_chars(o, list(x) + list(y))
            return o
        if isinstance(b, ElemPtr) and num(a):
            return ElemPtr(b.vec, add(b.idx, a))
    return NI


def call(run, e, obj, args):
    try:
        return _call(run, e, obj, args)
    except Unsupported:
        return NI


def _call(run, e, obj, args):
    q, n = e["q"], e["n"]
    if q.startswith("std::ranges::") or "views::" in q or "__adaptor" in q:
        if n == "operator()":
            m = re.match(r"std::ranges::_+(\w+?)_fn(?:<.*>)?::operator\(\)", q)
            if m:
                if m.group(1) in ("copy_n", "fill_n"):
                    return n_algorithm(run, e, m.group(1), args)
                if m.group(1) == "distance":
                    s = source(run, args, e.get("l"))
                    return NI if s is None else s[0].n
                if m.group(1) in ("next", "prev") and args and isinstance(V(args[0]), ElemPtr):
                    k = V(args[1]) if len(args) > 1 else 1
                    p = V(args[0])
                    return ElemPtr(p.vec, add(p.idx, k) if m.group(1) == "next" else sub(p.idx, k))
                if m.group(1) in ALG:
                    return algorithm(run, e, m.group(1), args, True)
            if re.match(r"std::ranges::(less|greater|equal_to|less_equal|greater_equal|not_equal_to)::operator\(\)", q):
                return call_fobj(run, fobj(q), args, e)
            if "__cust_access" in q or "__access" in q:
                for k, end in (("_RBegin", 0), ("_REnd", 1)):
                    if "::" + k + "::" in q:
                        return rev_it(run, V(args[0]), end)
                v = V(args[0]) if args else None
                if isinstance(v, MapObj) and v.path is None:
                    if "_Begin::" in q or "_CBegin::" in q:
                        return map_it(run, v, 0)
                    if "_End::" in q or "_CEnd::" in q:
                        return MapIt(v, None)
        return adaptor(run, e, args)
    if obj is None and e.get("op") and (e.get("ext") or e.get("defd")) and args:
        r = operator(run, e, args)
        if r is not NI:
            return r
    if obj is not None:
        if e.get("op") and e.get("defd") and e["op"] in ("==", "!=", "<", ">", "<=", ">=", "<=>"):
            r = operator(run, e, [obj] + list(args))
            if r is not NI:
                return r
        if not e.get("ext") and not q.startswith("std::") and not isinstance(V(obj), (ElemPtr,)):
            return NI
        return method(run, e, obj, V(obj), n, args)
    if obj is None and (q.startswith("std::") or e.get("ext")):
        return free(run, e, args)
    return NI


def construct(run, e, rec, nat, ta, args):
    """constructors; NI leaves it to models.py"""
    if rec is None:
        return NI
    if rec.startswith("std::function") or rec.startswith("std::move_only_function"):
        if not args:
            return NULL
        return run.rvalue(args[0])
    if rec.startswith("std::reference_wrapper"):
        a = args[0] if args else None
        if isinstance(V(a), Obj) and V(a).rec == "std::reference_wrapper":
            return V(a)
        return rec_obj("std::reference_wrapper", r=Ptr(as_cell(a)))
    if rec.startswith("std::reverse_iterator"):
        if args:
            return reverse_of(run, V(args[0]))
        return NI
    if re.match(r"std::(unordered_)?(multi)?set\b", rec):
        m = MapObj(rec)
        if args and not isinstance(V(args[0]), Ext):
            if isinstance(V(args[0]), MapObj):
                return run.copy_val(V(args[0]))
            s = source(run, args, e.get("l"))
            if s is None:
                return NI
            for c in s[0].cells():
                set_add(run, m, run.copy_val(c.v))
        return m
    if rec.startswith("std::shared_ptr"):
        a = V(args[0]) if args else NULL
        if isinstance(a, Obj) and "p" in a.fields:
            return rec_obj("std::shared_ptr", p=a.fields["p"].v)
        return rec_obj("std::shared_ptr", p=a)
    if nat in ("strview", "string") and len(args) >= 2:
        a = V(args[0])
        if num(a) and num(V(args[1])) and (not e.get("pt") or run.p.strip(e["pt"][0])["k"] == "int"):
            k = run.concrete(a)
            if isinstance(k, int):
                o = StrObj(rec, "")
                set_chars(o, [V(args[1])] * k)
                return o
        if isinstance(a, Ptr) and isinstance(a.cell, Cell) and num(a.cell.v) and num(V(args[1])):
            k = run.concrete(V(args[1]))
            if k == 0 or k == 1:
                o = StrObj(rec, "")
                set_chars(o, [a.cell.v] * k)
                return o
        if isinstance(a, ElemPtr) and isinstance(V(args[1]), ElemPtr) and nat == "string":
            s = source(run, args, e.get("l"))
            if s is not None:
                vals = [c.v for c in s[0].cells()]
                if all(num(v) for v in vals):
                    o = StrObj(rec, "")
                    set_chars(o, vals)
                    return o
        if isinstance(a, StrObj) and nat == "string" and len(args) == 3 and a.items() is not None:
            new = string_args(run, e, args, e.get("l"))
            if new is not None:
                o = StrObj(rec, "")
                set_chars(o, new)
                return o
    if nat == "vector" and len(args) >= 2 and isinstance(V(args[0]), MapIt):
        s = source(run, args, e.get("l"))
        if s is not None:
            v = VecObj(rec, ta[0][1], 0)
            set_items(run, v, [run.copy_val(c.v) for c in s[0].cells()])
            return v
    if nat == "map" and len(args) >= 2:
        s = source(run, args, e.get("l"))
        if s is not None:
            m = MapObj(rec)
            for c in s[0].cells():
                map_insert(run, m, c.v)
            return m
    if nat == "variant" and args and e.get("pt") and "in_place" in run.p.strip(e["pt"][0]).get("s", ""):
        m = re.search(r"in_place_index_t<(\d+)", run.p.strip(e["pt"][0])["s"])
        alts = [x[1] for x in ta]
        i = None
        if m:
            i = int(m.group(1))
        else:
            m = re.search(r"in_place_type_t<(.*)>", run.p.strip(e["pt"][0])["s"])
            for j, a in enumerate(alts):
                if m and run.type_unq(a) == m.group(1):
                    i = j
        if i is not None:
            from . import models
            return run.mk_variant(rec, alts, i, models.build(run, alts[i], args[1:], e))
    return NI
