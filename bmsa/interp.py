"""Path-sensitive abstract interpretation of the extracted program.

A function is analysed for *all* inputs of an abstract starting state: scalars are members of finite or interval
domains, containers and strings have unknown contents and length, calls are followed into repository code, and an
undetermined condition splits the abstract state (trace partitioning).  Partitioning is driven by replaying the
function with a recorded list of decisions, so the interpreter itself is plain structural recursion over the typed
syntax tree.  No repository code is executed and no solver is involved: entailment is by normal forms and bounds.
"""
from .terms import *  # noqa
from .terms import Facts, Cond, Sym, App, Lin, add, sub, scale, is_sym, norm_eq, parts, mk_lin
from . import ops
from .values import *  # noqa
from .values import UNINIT, NULL, Cell, StrCell, Ptr, ElemPtr, SymPtr, FnRef, MemPtr, Havoc, Obj, Closure, VariantObj, OptObj, \
    ResultObj, VecObj, SpanObj, SymStr, CharSeq, StrObj, MapObj, MapIt, ViewObj, Ext
from .extract import AnalysisBroken


ORDERINGS = ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering")
ORDERING = {"less": -1, "equal": 0, "equivalent": 0, "greater": 1, "unordered": 2}      # comparisons with 0 treat 2 as unordered (models.f_compare_cat)


class PathEnd(Exception):
    """this path is not continued: infeasible, or cut by a bound"""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class ThrowEx(Exception):
    def __init__(self, tname, value, line, file, msg=""):
        Exception.__init__(self, "%s: %s (%s:%s)" % (tname, msg, file, line))
        self.tname, self.value, self.line, self.file, self.msg = tname, value, line, file, msg


class TooManyPaths(Exception):
    pass


class Frame:
    __slots__ = ("fn", "env", "this", "clos", "line")

    def __init__(self, fn, this=None, clos=None):
        self.fn, self.this, self.clos = fn, this, clos
        self.env = {}
        self.line = 0

    def find(self, vid):
        c = self.env.get(vid)
        if c is None and self.clos is not None:
            c = self.clos.caps.get(vid)
        return c


class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.log = []

    def choose(self, n):
        i = len(self.log)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((c, n))
        return c

    def next_prefix(self):
        l = list(self.log)
        while l:
            c, n = l.pop()
            if c + 1 < n:
                return [x for x, _ in l] + [c + 1]
        return None


INT_BITS = {"bool": (1, False)}


class Program:
    """Indexes over the extracted database."""

    def __init__(self, db):
        self.db = db
        self.observers = {}      # hooks of every run
        self.types = db["types"]
        self.funcs = db["functions"]
        self.vars = db["vars"]
        self.records = db["records"]
        self.enums = {}
        for n, e in db["enums"].items():
            self.enums[n] = [(a, int(b)) for a, b in e["e"]]
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.type_by_s = {}
        for i, t in enumerate(self.types):
            self.type_by_s.setdefault(t["s"], i)
        self._native = {}
        self.rec_type = {}
        for i, t in enumerate(self.types):
            if t["k"] == "rec" and not t.get("const"):
                self.rec_type.setdefault(t["n"], i)

    def fn(self, q, pred=None, n=1):
        """the unique function with this qualified name (suffix match on ::)"""
        c = [f for k, l in self.by_q.items() if k == q or k.endswith("::" + q) for f in l]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) != n and n is not None:
            raise AnalysisBroken("anchor %s: %d candidates" % (q, len(c)))
        return c[0] if n == 1 else c

    def enum(self, q):
        for k in self.enums:
            if k == q or k.endswith("::" + q):
                return dict(self.enums[k])
        raise AnalysisBroken("no enum " + q)

    def enum_name(self, q, v):
        for k in self.enums:
            if k == q or k.endswith("::" + q):
                for n, x in self.enums[k]:
                    if x == v:
                        return n
        return str(v)

    def ctors_of(self, rec):
        d = self.__dict__.get("_ctors")
        if d is None:
            d = self._ctors = {}
            for f in self.funcs.values():
                if f.get("ctor") and f.get("rec") is not None:
                    d.setdefault(self.types[f["rec"]]["n"], []).append(f)
        return d.get(rec, [])

    def record(self, q):
        for k in self.records:
            if k == q:
                return k
        c = [k for k in self.records if k.endswith("::" + q) and "<" not in k.split(q)[0]]
        if len(c) != 1:
            raise AnalysisBroken("anchor record %s: %s" % (q, c[:4]))
        return c[0]

    def tid(self, s):
        i = self.type_by_s.get(s)
        if i is None:
            c = [i for k, i in self.type_by_s.items() if k.endswith("::" + s) and " " not in k]
            if len(c) == 1:
                return c[0]
            raise AnalysisBroken("anchor type %s" % s)
        return i

    def strip(self, t):
        """type dict without reference"""
        ty = self.types[t]
        while ty["k"] in ("ref", "rref"):
            ty = self.types[ty["to"]]
        return ty

    def native(self, rec):
        """('variant'|'result'|'optional'|..., targs) for a record name, following bases"""
        if rec in self._native:
            return self._native[rec]
        r = self.records.get(rec)
        out = (None, None)
        if r is not None:
            tm = r.get("tm")
            if tm in NATIVE_TM:
                out = (NATIVE_TM[tm], r.get("ta"))
            else:
                for b in r.get("bases", []):
                    bt = self.types[b]
                    if bt["k"] == "rec":
                        nb = self.native(bt["n"])
                        if nb[0] in ("variant", "vector", "string"):
                            out = nb
                            break
        else:
            ti = self.rec_type.get(rec)
            if ti is not None and self.types[ti].get("tm") in NATIVE_TM:
                out = (NATIVE_TM[self.types[ti]["tm"]], self.types[ti].get("ta"))
        self._native[rec] = out
        return out


NATIVE_TM = {
    "bit_manipulation::Variant": "variant", "bit_manipulation::Result": "result",
    "std::optional": "optional", "std::vector": "vector", "std::span": "span", "std::array": "array",
    "std::basic_string_view": "strview", "std::basic_string": "string", "std::unordered_map": "map",
    "std::map": "map", "std::unique_ptr": "uptr", "std::pair": "pair", "std::tuple": "tuple",
    "std::initializer_list": "ilist", "std::bitset": "bitset", "std::variant": "variant",
    "std::set": "set", "std::unordered_set": "set", "std::multiset": "set", "std::unordered_multiset": "set",
}


class Run:
    """One path."""

    def __init__(self, prog, oracle, hooks=None, opts=None):
        self.p = prog
        self.oracle = oracle
        self.facts = Facts()
        self.trace = []
        self.hooks = dict(prog.observers, **(hooks or {})) if prog.observers else hooks or {}
        self.opts = opts or {}
        self.globals = {}
        self.pointees = {}
        self.nullness = {}
        self.counter = {}
        self.stack = []
        self.notes = []          # imprecision on this path
        self.entered = set()
        self.streq = {}
        self.names = None        # Names: opaque identifiers
        self.unroll = self.opts.get("unroll", 2)
        self.max_depth = self.opts.get("max_depth", 120)
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 200000)
        self.on_arith = self.opts.get("on_arith")
        self.on_index = self.opts.get("on_index")
        self.cells_keep = []
        self.path_conds = []
        self._ev = {
            "int": self.e_int, "load": self.e_load, "var": self.e_var, "mem": self.e_mem, "call": self.e_call,
            "ctor": self.e_ctor, "cast": self.e_cast, "un": self.e_un, "bin": self.e_bin, "assign": self.e_assign,
            "cassign": self.e_cassign, "cond": self.e_cond, "init": self.e_init, "lambda": self.e_lambda,
            "temp": self.e_temp, "str": self.e_str, "null": lambda e, f: NULL, "this": self.e_this,
            "srcloc": lambda e, f: Ext("source_location"), "zero": lambda e, f: self.zero(e["t"]),
            "throw": self.e_throw, "idx": self.e_idx, "new": self.e_new, "arrcopy": self.e_arrcopy,
            "stdinit": self.e_stdinit, "dinit": self.e_dinit, "fref": self.e_fref, "fieldref": lambda e, f: MemPtr(e["n"]),
            "stmtexpr": self.e_stmtexpr, "typeid": lambda e, f: Ext("typeid"), "float": lambda e, f: Havoc("float"),
            "unk": self.e_unk, "tpo": self.e_unk, "delete": self.e_delete,
        }
        self._st = {
            "blk": self.s_blk, "decls": self.s_decls, "decl": self.s_decl, "decomp": self.s_decomp, "expr": self.s_expr,
            "if": self.s_if, "while": self.s_while, "do": self.s_do, "for": self.s_for, "range": self.s_range,
            "switch": self.s_switch, "ret": self.s_ret, "break": lambda s, f: "brk", "cont": lambda s, f: "cont",
            "null": lambda s, f: None, "try": self.s_try, "case": self.s_case, "default": self.s_case,
            "label": self.s_case, "unks": self.s_unks,
        }

    # ------------------------------------------------------------------ utilities
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s'%d" % (base, n)

    def note(self, what):
        self.notes.append(what)

    def event(self, *ev):
        self.trace.append(ev)

    def where(self, line=None):
        f = self.stack[-1].fn if self.stack else None
        if f is None:
            return "?"
        return "%s:%s in %s" % (rel(f["file"]), line if line is not None else self.stack[-1].line, short(f["q"]))

    def choose(self, n):
        return self.oracle.choose(n) if n > 1 else 0

    def member(self, c, values):
        """is the character c one of the values? splits into two sets of characters"""
        c = self.concrete(c)
        if isinstance(c, int):
            return c in values
        if not isinstance(c, Sym):
            return any(self.decide(Cond("eq", sub(c, v))) for v in values)
        d = self.facts.domain(c)
        inside = [v for v in values if d.has(v)]
        if not inside:
            return False
        rest = d.without(inside)
        if rest.empty():
            return True
        r = self.choose(2) == 0
        self.facts.dom[c] = d.only(inside) if r else rest
        self.facts._single(c)
        self.path_conds.append(("%r in %s" % (c, sorted(values)[:8]), r))
        return r

    def decide(self, c):
        """truth of a condition; splits the state when undetermined"""
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, Havoc):
            self.note("havoc branch: " + c.why)
            return self.choose(2) == 0
        if not is_sym(c):
            c = self.truth(c)
            if isinstance(c, int):
                return c != 0
        if isinstance(c, App) and c.op == "b":
            return self.decide(c.args[0])
        r = self.facts.decide(c)
        if r is not None:
            return r
        r = self.choose(2) == 0
        if not self.facts.assume(c, r):
            raise PathEnd("infeasible")
        self.path_conds.append((c, r))
        return r

    def known(self, c):
        """truth of a condition if it is determined, else None; never splits"""
        if isinstance(c, int):
            return c != 0
        if isinstance(c, Havoc):
            return None
        if isinstance(c, App) and c.op == "b":
            return self.known(c.args[0])
        return self.facts.decide(c)

    def truth(self, v):
        if isinstance(v, (int, Sym, App, Lin, Cond, Havoc)):
            return v
        if v is NULL:
            return 0
        if isinstance(v, (Ptr, ElemPtr, FnRef, MemPtr, StrObj, Closure)):
            return 1
        if isinstance(v, SymPtr):
            return Sym("nonnull(%s)" % v.name, 1)
        if isinstance(v, Ext):
            return Sym(self.fresh_name("bool(%s)" % v.rec), 1, src="ext")
        if v is UNINIT:
            self.event("uninit", self.where())
            return Havoc("uninitialised")
        return Havoc("truth of %s" % type(v).__name__)

    def concrete(self, x):
        """normalise a scalar; int when determined"""
        if isinstance(x, int):
            return x
        if is_sym(x):
            x = self.facts.norm(x)
            if isinstance(x, (Sym, App)):
                s = self.facts.domain(x).single()
                if s is not None:
                    return s
            if isinstance(x, Cond):
                r = self.facts.decide(x)
                if r is not None:
                    return int(r)
        return x

    def split_value(self, x, limit=300):
        """a concrete value for x, splitting over its finite domain"""
        x = self.concrete(x)
        if isinstance(x, int) or not is_sym(x):
            return x
        if isinstance(x, Cond):
            return int(self.decide(x))
        if isinstance(x, (Sym, App)):
            vs = self.facts.domain(x).values(limit)
            if vs is not None:
                v = vs[self.choose(len(vs))]
                if not self.facts.assume(Cond("eq", sub(x, v)), True):
                    raise PathEnd("infeasible")
                return v
        return x

    def type(self, t):
        return self.p.types[t]

    # ------------------------------------------------------------------ value construction
    def copy_val(self, v):
        if isinstance(v, Obj):
            return v.copy(self)
        return v

    def copy_field(self, obj, name, cell):
        ft = self.field_type(obj.rec, name)
        if ft is not None and self.type(ft)["k"] in ("ref", "rref"):
            return cell
        return Cell(self.copy_val(cell.v), cell.name)

    def field_decl(self, rec, name):
        r = self.p.records.get(rec)
        if r is None:
            return None
        for f in r["fields"]:
            if f["n"] == name:
                return f
            if f.get("anon"):
                t = self.type(f["t"])
                if t["k"] == "rec":
                    x = self.field_decl(t["n"], name)
                    if x:
                        return x
        for b in r["bases"]:
            bt = self.type(b)
            if bt["k"] == "rec":
                f = self.field_decl(bt["n"], name)
                if f is not None:
                    return f
        return None

    def field_type(self, rec, name):
        f = self.field_decl(rec, name)
        return None if f is None else f["t"]

    def all_fields(self, rec):
        r = self.p.records.get(rec)
        if r is None:
            return []
        out = []
        for b in r["bases"]:
            bt = self.type(b)
            if bt["k"] == "rec":
                out += self.all_fields(bt["n"])
        return out + r["fields"]

    def fresh(self, t, name, src="in"):
        ty = self.type(t)
        k = ty["k"]
        if k in ("ref", "rref"):
            return self.fresh(ty["to"], name, src)
        if k == "int":
            return Sym(name, ty["bits"], ty["sg"], src=src)
        if k == "bool":
            return Sym(name, 1, False, src=src)
        if k == "enum":
            es = self.p.enums.get(ty["n"])
            if es:
                return Sym(name, ty.get("bits", 32), bool(ty.get("sg")), enum=tuple(sorted(set(v for _, v in es))), src=src)
            return Sym(name, ty.get("bits", 32), bool(ty.get("sg")), src=src)
        if k == "ptr":
            to = self.type(ty["to"])
            if to["s"] in ("const char", "char"):
                return StrObj(None, SymStr(name, Sym("len(%s)" % name, 62)))
            return SymPtr(name, ty["to"])
        if k == "arr":
            return VecObj(None, ty["to"], ty["len"], name, "array")
        if k == "rec":
            return self.fresh_rec(ty, name, src)
        if k == "nullptr":
            return NULL
        return Havoc("value of type " + ty["s"])

    def fresh_rec(self, ty, name, src="in"):
        rec = ty["n"]
        nat, ta = self.p.native(rec)
        if nat == "variant":
            alts = [x[1] for x in ta]
            return VariantObj(rec, alts, Sym(name + ".idx", 8, enum=tuple(range(len(alts))), src=src), name)
        if nat == "result":
            return ResultObj(rec, ta[0][1], ta[1][1], Sym(name + ".ok", 1, src=src), path=name)
        if nat == "optional":
            return OptObj(rec, ta[0][1], Sym(name + ".has", 1, src=src), path=name)
        if nat in ("vector", "ilist"):
            return VecObj(rec, ta[0][1], Sym(name + ".len", 62, src=src), name)
        if nat == "array":
            return VecObj(rec, ta[0][1], ta[1][1], name, "array")
        if nat == "span":
            n = ta[1][1] if len(ta) > 1 and isinstance(ta[1][1], int) and 0 <= ta[1][1] < 1 << 60 else Sym(name + ".len", 62, src=src)
            return SpanObj(rec, VecObj(None, ta[0][1], n, name), 0, n)
        if nat in ("strview", "string"):
            return StrObj(rec, SymStr(name, Sym("len(%s)" % name, 62, src=src)))
        if nat == "map":
            return MapObj(rec, name)
        if nat == "uptr":
            o = Ext(rec, name)
            o.fields["p"] = Cell(SymPtr(name, ta[0][1]))
            return o
        if rec in self.p.records and self.p.records[rec].get("file", "").find("/src/") >= 0 or nat == "pair":
            return Obj(rec, name)
        return Ext(rec, name)

    def zero(self, t):
        ty = self.type(t)
        k = ty["k"]
        if k in ("int", "bool", "enum"):
            return 0
        if k == "ptr":
            return NULL
        if k == "rec":
            return self.default_obj(t)
        if k == "arr":
            v = VecObj(None, ty["to"], ty["len"], None, "array")
            for i in range(min(ty["len"], 64)):
                v.elems[i] = Cell(self.zero(ty["to"]))
            return v
        if k == "void":
            return None
        return Havoc("zero " + ty["s"])

    def default_obj(self, t, zi=False):
        ty = self.type(t)
        rec = ty["n"]
        nat, ta = self.p.native(rec)
        if nat == "optional":
            return OptObj(rec, ta[0][1], 0)
        if nat in ("vector", "ilist"):
            return VecObj(rec, ta[0][1], 0)
        if nat == "array":
            return VecObj(rec, ta[0][1], ta[1][1], None, "array")
        if nat == "span":
            return SpanObj(rec, VecObj(None, ta[0][1], 0), 0, 0)
        if nat in ("strview", "string"):
            return StrObj(rec, "")
        if nat in ("map", "set"):
            m = MapObj(rec)
            return m
        if nat == "variant":
            return self.mk_variant(rec, [x[1] for x in ta], 0, self.default_value(ta[0][1]))
        if nat == "result":
            return ResultObj(rec, ta[0][1], ta[1][1], 1, Cell(None))
        if nat == "uptr":
            o = Ext(rec)
            o.fields["p"] = Cell(NULL)
            return o
        r = self.p.records.get(rec)
        if r is None or not (r.get("file", "").find("/src/") >= 0 or nat == "pair"):
            return Ext(rec, self.fresh_name(rec))
        o = Obj(rec)
        fr = Frame(None, Cell(o))
        for f in self.all_fields(rec):
            if "init" in f:
                v = self.value(f["init"], fr)
                o.fields[f["n"]] = Cell(v)
            else:
                o.fields[f["n"]] = Cell(self.default_value(f["t"], zi))
        return o

    def default_value(self, t, zi=False):
        ty = self.type(t)
        if ty["k"] == "rec":
            return self.default_obj(t, zi)
        if ty["k"] == "arr" and not zi:
            v = VecObj(None, ty["to"], ty["len"], None, "array")
            for i in range(min(ty["len"], 64)):
                v.elems[i] = Cell(self.default_value(ty["to"]))
            return v
        return self.zero(t) if zi else UNINIT

    def mk_variant(self, rec, alts, idx, val):
        o = VariantObj(rec, alts, idx)
        o.cells[idx] = Cell(val)
        return o

    # ------------------------------------------------------------------ object access
    def obj_of(self, x):
        """the Obj behind a cell or value"""
        if isinstance(x, Cell):
            return x.v
        return x

    def field(self, o, name):
        """cell of a field; lazily materialised"""
        c = o.fields.get(name)
        if c is not None:
            return c
        if isinstance(o, Havoc):
            return Cell(o)
        ft = self.field_type(o.rec, name)
        if ft is None:
            c = Cell(Havoc("field %s of %s" % (name, o.rec)))
        elif o.path is not None:
            ty = self.type(ft)
            nm = "%s.%s" % (o.path, name)
            if ty["k"] in ("ref", "rref"):
                c = self.pointee(SymPtr(nm, ty["to"]))
            else:
                c = Cell(self.fresh(ft, nm), nm)
            hk = self.opts.get("on_field")
            if hk:
                v = hk(self, o, name, c)
                if v is not None:
                    c = v
        else:
            c = Cell(UNINIT)
        o.fields[name] = c
        return c

    def pointee(self, p):
        c = self.pointees.get(p.name)
        if c is None:
            c = Cell(self.fresh(p.to, "*" + p.name), "*" + p.name)
            self.pointees[p.name] = c
            hk = self.opts.get("on_pointee")
            if hk:
                hk(self, p, c)
        return c

    def deref(self, p, line=None):
        if isinstance(p, Ptr):
            return p.cell
        if isinstance(p, SymPtr):
            k = self.known(self.truth(p))
            if k is False:
                self.event("null-deref", p.name, self.where(line))
                raise PathEnd("null dereference")
            if k is None:
                hk = self.opts.get("on_maybe_null")
                if hk:
                    hk(self, p, line)
                self.facts.assume(self.truth(p), True)
            return self.pointee(p)
        if isinstance(p, ElemPtr):
            return self.elem(p.vec, p.idx, line, deref=True)
        if p is NULL:
            self.event("null-deref", "nullptr", self.where(line))
            raise PathEnd("null dereference")
        if isinstance(p, StrObj):
            return Cell(self.char_at(p, 0))
        if isinstance(p, MapIt):
            if p.entry is None:
                self.event("end-deref", "map end", self.where(line))
                raise PathEnd("end dereference")
            return p.entry
        if isinstance(p, Ext) and "p" in p.fields:
            return self.deref(p.fields["p"].v, line)
        if isinstance(p, OptObj):
            return self.opt_get(p, line)
        if isinstance(p, ResultObj):
            return self.result_get(p, line)
        if isinstance(p, (FnRef, Closure)):
            return Cell(p)
        if p is UNINIT:
            self.event("uninit", self.where(line))
        return Cell(Havoc("deref of %s" % type(p).__name__))

    def elem(self, vec, idx, line=None, deref=False):
        if isinstance(vec, SpanObj):
            return self.elem(vec.vec, add(vec.off, idx), line, deref)
        if isinstance(vec, StrObj):
            i = self.concrete(idx)
            if isinstance(i, int) and isinstance(vec.length, int) and 0 <= i < vec.length and vec.items() is not None:
                return StrCell(self, vec, i)
            return Cell(self.char_at(vec, idx))
        if isinstance(vec, ViewObj):
            if vec.kind == "reverse":
                return self.elem(vec.base, sub(sub(vec.base.length, 1), idx), line, deref)
            v = self.apply(vec.fn, [self.elem(vec.base, idx, line, deref)], line)
            return v if isinstance(v, Cell) else Cell(v)
        idx = self.concrete(idx)
        if self.on_index:
            self.on_index(self, vec, idx, line)
        n = self.concrete(vec.length)
        if isinstance(n, int) and isinstance(idx, int):
            if not 0 <= idx < n:
                self.event("oob", "index %s, length %s" % (idx, n), self.where(line))
                raise PathEnd("out of bounds")
        else:
            inb = self.known(ops.binary("<", idx, n, 64, False))
            neg = self.known(ops.binary("<", idx, 0, 64, False))
            if inb is False or neg is True:
                self.event("oob", "index %s, length %s" % (idx, n), self.where(line))
                raise PathEnd("out of bounds")
        if isinstance(n, int) and not isinstance(idx, int) and is_sym(idx) and vec.path is None:
            idx = self.split_value(idx)
            if isinstance(idx, int) and not 0 <= idx < n:
                self.event("oob", "index %s, length %s" % (idx, n), self.where(line))
                raise PathEnd("out of bounds")
        c = vec.elems.get(idx)
        if c is None:
            for k in vec.elems:
                if is_sym(k) or is_sym(idx):
                    if self.known(ops.binary("==", k, idx, 64, False)):
                        return vec.elems[k]
            if vec.path is not None:
                nm = "%s[%s]" % (vec.path, idx)
                c = Cell(self.fresh(vec.et, nm), nm)
            elif vec.kind == "array":
                c = Cell(UNINIT)
            else:
                c = Cell(Havoc("unknown element"))
            vec.elems[idx] = c
        return c

    def char_at(self, s, i):
        if isinstance(s, ElemPtr):
            return self.elem(s.vec, add(s.idx, i)).v
        off = self.concrete(add(s.off, i))
        if isinstance(s.base, str):
            if isinstance(off, int):
                b = s.base
                if off == len(b):
                    return 0
                if 0 <= off < len(b):
                    return ops.wrap(ord(b[off]), 8, True)
                return Havoc("char out of range")
            return App("chr", (s.base, off), 8, True)
        if isinstance(s.base, CharSeq) and isinstance(off, int):
            l = s.base.chars
            if off == len(l):
                return 0
            if not 0 <= off < len(l):
                return Havoc("char out of range")
            c = self.concrete(l[off])
            return ops.wrap(c, 8, True) if isinstance(c, int) else c
        return App("chr", (s.base.name, off), 8, True)

    # ------------------------------------------------------------------ optional / result / variant
    def opt_has(self, o):
        return o.has

    def opt_get(self, o, line=None):
        h = self.known(o.has)
        if h is False:
            self.event("empty-optional", self.where(line))
            raise PathEnd("empty optional dereferenced")
        if h is None:
            self.event("maybe-empty-optional", self.where(line))
            self.facts.assume(o.has, True)
        if o.val is None:
            nm = (o.path or self.fresh_name("opt")) + ".val"
            o.val = Cell(self.fresh(o.vt, nm), nm)
        return o.val

    def result_get(self, o, line=None):
        h = self.known(o.has)
        if h is None:
            self.event("unchecked-result", self.where(line))
            h = self.decide(o.has)
        if h is False:
            self.event("result-deref-error", self.where(line))
            raise ThrowEx("bit_manipulation::Assertion_Error", None, line, self.where(line), "value of a failed result used")
        if self.type(o.vt)["k"] == "void":
            return Cell(None)
        if o.val is None:
            nm = (o.path or self.fresh_name("res")) + ".val"
            o.val = Cell(self.fresh(o.vt, nm), nm)
        return o.val

    def result_err(self, o, line=None):
        h = self.known(o.has)
        if h is None:
            self.event("unchecked-error", self.where(line))
            h = self.decide(o.has)
        if h is True:
            self.event("error-of-success", self.where(line))
            raise ThrowEx("bit_manipulation::Assertion_Error", None, line, self.where(line), "error of a successful result used")
        if o.err is None:
            nm = (o.path or self.fresh_name("res")) + ".err"
            o.err = Cell(self.fresh(o.et, nm), nm)
        return o.err

    def variant_cell(self, o, i):
        c = o.cells.get(i)
        if c is None:
            t = o.alts[i]
            if o.path is not None:
                nm = "%s<%s>" % (o.path, short(self.type(t)["s"]))
                c = Cell(self.fresh(t, nm), nm)
            else:
                c = Cell(Havoc("variant alternative"))
            o.cells[i] = c
        return c

    def variant_get(self, o, i, line):
        c = ops.binary("==", self.concrete(o.idx), i, 8, False)
        k = self.known(c)
        if k is None:
            self.event("unchecked-variant", self.where(line))
            k = self.decide(c)
        if k is False:
            self.event("bad-variant-access", self.where(line))
            raise ThrowEx("bit_manipulation::Assertion_Error", None, line, self.where(line), "wrong variant alternative accessed")
        return self.variant_cell(o, i)

    def alt_index(self, o, t):
        n = self.type_unq(t)
        for i, a in enumerate(o.alts):
            if self.type_unq(a) == n:
                return i
        raise AnalysisBroken("alternative %s" % n)

    def type_unq(self, t):
        ty = self.p.strip(t)
        s = ty["s"]
        if ty.get("const") and ty["k"] != "ptr" and s.startswith("const "):
            s = s[6:]
        if ty["k"] == "ptr" and s.endswith("const"):
            s = s[:-5].rstrip()
        return s

    # ------------------------------------------------------------------ statements
    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathEnd("step bound")
        if s is None:
            return None
        l = s.get("l")
        if l:
            fr.line = l
        return self._st[s["k"]](s, fr)

    def s_unks(self, s, fr):
        raise AnalysisBroken("statement %s not supported (%s)" % (s.get("c"), self.where(s.get("l"))))

    def s_blk(self, s, fr):
        decls = []
        try:
            for x in s["s"]:
                r = self.exec(x, fr)
                if x is not None and x["k"] == "decls":
                    decls.append(x)
                if r is not None:
                    if decls:
                        self.leave(decls, fr, False)
                    return r
        except ThrowEx:
            if decls:
                self.leave(decls, fr, True)
            raise
        if decls:
            self.leave(decls, fr, False)
        return None

    def leave(self, decls, fr, unwinding):
        for ds in reversed(decls):
            for d in reversed(ds["s"]):
                if d["k"] != "decl" or d.get("static"):
                    continue
                t = self.type(d["t"])
                if t["k"] != "rec":
                    continue
                r = self.p.records.get(t["n"])
                if not r or not r.get("dtor") or r.get("dtor_ext"):
                    continue
                if self.p.native(t["n"])[0]:
                    continue
                c = fr.env.get(d["v"])
                if c is None or not isinstance(c.v, Obj):
                    continue
                f = self.p.funcs.get(r["dtor"])
                if f is None or self.hooks.get(f["q"]) is False:
                    continue
                old = self.opts.get("unwinding", 0)
                self.opts["unwinding"] = old + (1 if unwinding else 0)
                try:
                    self.call_fn(f, c, [])
                finally:
                    self.opts["unwinding"] = old

    def s_decls(self, s, fr):
        for d in s["s"]:
            self.exec(d, fr)

    def s_decl(self, d, fr):
        t = d["t"]
        ty = self.type(t)
        if d.get("static"):
            fr.env[d["v"]] = self.global_cell(d["q"], d.get("n"), t)
            return
        if "e" not in d:
            fr.env[d["v"]] = Cell(self.default_value(t), d.get("n"))
            return
        if ty["k"] in ("ref", "rref"):
            v = self.eval(d["e"], fr)
            fr.env[d["v"]] = v if isinstance(v, Cell) else Cell(v, d.get("n"))
        else:
            c = fr.env[d["v"]] = Cell(UNINIT, d.get("n"))     # a lambda may refer to the variable it initialises
            c.v = self.rvalue(self.eval(d["e"], fr))

    def s_decomp(self, d, fr):
        v = self.eval(d["e"], fr)
        ty = self.type(d["t"])
        if ty["k"] in ("ref", "rref"):
            c = v if isinstance(v, Cell) else Cell(v)
        else:
            c = Cell(self.rvalue(v))
        self.bind_decomp(d, c, fr)

    def bind_decomp(self, d, c, fr):
        fr.env[d["v"]] = c
        for i, b in enumerate(d["bs"]):
            if "hv" in b:
                o = c.v
                x = self.tuple_elem(o, i)
                fr.env[b["hv"]] = x
                fr.env[b["v"]] = x
            else:
                x = self.eval(b["e"], fr)
                fr.env[b["v"]] = x if isinstance(x, Cell) else Cell(x)

    def tuple_elem(self, o, i):
        if isinstance(o, Obj) and (o.rec == "std::pair" or self.p.native(o.rec)[0] == "pair"):
            return self.field(o, "first" if i == 0 else "second")
        if isinstance(o, Obj):
            n = "_%d" % i
            if n in o.fields:
                return o.fields[n]
        return Cell(Havoc("tuple element"))

    def s_expr(self, s, fr):
        self.eval(s["e"], fr)

    def s_if(self, s, fr):
        ds = []
        if s.get("i"):
            self.exec(s["i"], fr)
            if s["i"]["k"] == "decls":
                ds.append(s["i"])
        if s.get("cv"):
            self.exec(s["cv"], fr)
            ds.append({"s": [s["cv"]]})
        try:
            if self.decide(self.truth(self.value(s["c"], fr))):
                r = self.exec(s["a"], fr)
            elif "b" in s:
                r = self.exec(s["b"], fr)
            else:
                r = None
        except ThrowEx:
            if ds:
                self.leave(ds, fr, True)
            raise
        if ds:
            self.leave(ds, fr, False)
        return r

    def loop_guard(self, c, st):
        """decide a loop condition, cutting the path after `unroll` undetermined iterations"""
        c = self.truth(c)
        k = self.known(c)
        if k is None:
            if st[0] >= self.unroll:
                # leave the loop if possible
                if isinstance(c, Havoc):
                    return False
                if not self.facts.assume(c, False):
                    raise PathEnd("infeasible")
                self.note("loop cut")
                st[2] = True
                return False
            r = self.decide(c)
            if r:
                st[0] += 1
            return r
        st[1] += 1
        if st[1] > 3000:
            raise PathEnd("loop bound")
        return k

    def s_while(self, s, fr):
        st = [0, 0, False]
        while True:
            if s.get("cv"):
                self.exec(s["cv"], fr)
            if not self.loop_guard(self.value(s["c"], fr), st):
                return None
            r = self.exec(s["s"], fr)
            if r is not None:
                if r == "brk":
                    return None
                if r != "cont":
                    return r
            self.iter_budget(st, s)

    def iter_budget(self, st, s):
        """loops whose condition is constant (while (true)) are cut by counting iterations with decisions"""
        st[1] += 1
        lim = self.opts.get("loop_iters", 3000)
        if st[1] > lim:
            raise PathEnd("loop bound")
        n = len(self.oracle.log)
        if len(st) == 3:
            st.append(n)
            st.append(0)
        if n > st[3]:
            st[3] = n
            st[4] += 1
            if st[4] > self.unroll + 1:
                raise PathEnd("loop bound")

    def s_do(self, s, fr):
        st = [0, 0, False]
        while True:
            r = self.exec(s["s"], fr)
            if r is not None:
                if r == "brk":
                    return None
                if r != "cont":
                    return r
            if not self.loop_guard(self.value(s["c"], fr), st):
                return None
            self.iter_budget(st, s)

    def s_for(self, s, fr):
        if s.get("i"):
            self.exec(s["i"], fr)
        st = [0, 0, False]
        while True:
            if s.get("cv"):
                self.exec(s["cv"], fr)
            if s.get("c") is not None:
                if not self.loop_guard(self.value(s["c"], fr), st):
                    return None
            r = self.exec(s["s"], fr)
            if r is not None:
                if r == "brk":
                    return None
                if r != "cont":
                    return r
            if s.get("n") is not None:
                self.eval(s["n"], fr)
            self.iter_budget(st, s)

    def s_range(self, s, fr):
        if s.get("i"):
            self.exec(s["i"], fr)
        rv = self.eval(s["r"], fr)
        o = self.obj_of(rv)
        d = s["d"]
        for cell in self.iterate(o, s.get("l")):
            if d["k"] == "decomp":
                ty = self.type(d["t"])
                if ty["k"] not in ("ref", "rref"):
                    cell = Cell(self.copy_val(cell.v))
                self.bind_decomp(d, cell, fr)
            else:
                ty = self.type(d["t"])
                if ty["k"] in ("ref", "rref"):
                    fr.env[d["v"]] = cell
                else:
                    fr.env[d["v"]] = Cell(self.copy_val(cell.v))
            r = self.exec(s["s"], fr)
            if r is not None:
                if r == "brk":
                    return None
                if r != "cont":
                    return r
        return None

    def iterate(self, o, line=None):
        """cells of a range; splits on the length up to the unrolling bound"""
        if isinstance(o, (VecObj, SpanObj)):
            i = 0
            st = [0, 0, False]
            while True:
                n = o.length
                if not self.loop_guard(ops.binary("<", i, n, 64, False), st):
                    return
                yield self.elem(o, i, line)
                i += 1
        elif isinstance(o, StrObj):
            i = 0
            st = [0, 0, False]
            while True:
                if not self.loop_guard(ops.binary("<", i, o.length, 64, False), st):
                    return
                yield self.elem(o, i, line)
                i += 1
        elif isinstance(o, MapObj):
            from . import stdlib
            for k, c in stdlib.entries(self, o) if o.path is None else list(o.items):
                yield stdlib.entry(self, o, k, c)
            if o.path is not None:
                n = Sym(o.path + ".rest", 62)
                st = [0, 0, False]
                i = 0
                while self.loop_guard(ops.binary("<", i, n, 64, False), st):
                    nat, ta = self.p.native(o.rec)
                    key = self.fresh(ta[0][1], "%s.key%d" % (o.path, i))
                    c = Cell(self.fresh(ta[1][1], "%s.val%d" % (o.path, i)))
                    yield Cell(self.pair(key, c))
                    i += 1
        elif isinstance(o, ViewObj):
            if o.kind == "transform":
                for c in self.iterate(o.base, line):
                    v = self.apply(o.fn, [c], line)
                    yield v if isinstance(v, Cell) else Cell(v)
            else:
                cs = list(self.iterate(o.base, line))
                for c in reversed(cs):
                    yield c
        elif type(o) is Obj and o.rec in self.p.records and self.own_range(o.rec):
            # begin(), end() and iterators of the program itself
            begin, end = self.own_range(o.rec)
            c = Cell(o)
            it, last = Cell(self.rvalue(self.call_fn(begin, c, []))), Cell(self.rvalue(self.call_fn(end, c, [])))
            rec = it.v.rec if isinstance(it.v, Obj) else None

            def op(name, n):
                l = [f for q in (rec + "::operator" + name, rec.rsplit("::", 1)[0] + "::operator" + name) for f in self.p.by_q.get(q, [])
                     if len(f["p"]) == n and (n != 2 or self.p.strip(f["p"][0]["t"]).get("n") == rec)]
                if not l:
                    raise AnalysisBroken("no operator%s of %s" % (name, rec))
                return l[0]
            if rec is None:
                self.note("iteration over unknown range")
                return
            eq, inc, star = op("==", 2), op("++", 0), op("*", 0)
            st = [0, 0, False]
            while True:
                r = self.call_fn(eq, None, [Cell(self.copy_val(it.v)), Cell(self.copy_val(last.v))])
                r = r.v if isinstance(r, Cell) else r
                if not self.loop_guard(ops.unary("!", self.truth(r), 1, False) if not isinstance(r, int) else 1 - r, st):
                    return
                v = self.call_fn(star, it, [])
                yield v if isinstance(v, Cell) else Cell(v)
                self.call_fn(inc, it, [])
        else:
            self.note("iteration over unknown range")
            n = Sym(self.fresh_name("range"), 62, src="havoc")
            st = [0, 0, False]
            i = 0
            while self.loop_guard(ops.binary("<", i, n, 64, False), st):
                yield Cell(Havoc("element of unknown range"))
                i += 1

    def own_range(self, rec):
        b, e = [[f for f in self.p.by_q.get(rec + "::" + n, []) if not f["p"] and f.get("b")] for n in ("begin", "end")]
        return (b[0], e[0]) if b and e else None

    def pair(self, k, c):
        o = Obj("std::pair")
        o.fields["first"] = Cell(k)
        o.fields["second"] = c
        return o

    def s_switch(self, s, fr):
        if s.get("i"):
            self.exec(s["i"], fr)
        if s.get("cv"):
            self.exec(s["cv"], fr)
        v = self.concrete(self.value(s["c"], fr))
        labels = s.get("_labels")
        if labels is None:
            labels = flatten_switch(s)
            s["_labels"] = labels
        seq, cases, dflt = labels
        if isinstance(v, int):
            target = dflt
            for lo, hi, pos in cases:
                if lo <= v <= hi:
                    target = pos
                    break
        elif isinstance(v, Havoc) or not is_sym(v):
            self.note("switch on unknown value")
            ts = sorted(set(p for _, _, p in cases)) + [dflt]
            target = ts[self.choose(len(ts))]
        else:
            target = self.switch_split(v, cases, dflt)
        if target is None:
            return None
        decls = []
        try:
            for x in seq[target:]:
                r = self.exec(x, fr)
                if x is not None and x["k"] == "decls":
                    decls.append(x)
                if r is not None:
                    if decls:
                        self.leave(decls, fr, False)
                    if r == "brk":
                        return None
                    return r
        except ThrowEx:
            if decls:
                self.leave(decls, fr, True)
            raise
        if decls:
            self.leave(decls, fr, False)
        return None

    def switch_split(self, v, cases, dflt):
        if isinstance(v, (Sym, App)):
            dom = self.facts.domain(v)
            groups = {}
            seen = set()
            for lo, hi, pos in cases:
                for x in range(lo, hi + 1) if hi - lo < 5000 else (lo,):
                    if x not in seen and dom.has(x):
                        seen.add(x)
                        groups.setdefault(pos, []).append(x)
            opts = [(pos, frozenset(xs)) for pos, xs in sorted(groups.items())]
            rest = dom.without(seen)
            if not rest.empty():
                opts.append((dflt, None))
            if not opts:
                raise PathEnd("infeasible")
            pos, xs = opts[self.choose(len(opts))]
            if xs is None:
                self.facts.dom[v] = rest
            else:
                self.facts.dom[v] = dom.only(xs)
            if self.facts.dom[v].empty():
                raise PathEnd("infeasible")
            self.facts._single(v)
            self.path_conds.append((v, "default" if xs is None else sorted(xs)))
            return pos
        for lo, hi, pos in cases:
            if lo == hi:
                if self.decide(ops.binary("==", v, lo, 64, False)):
                    return pos
            else:
                if self.decide(ops.binary(">=", v, lo, 64, False)) and self.decide(ops.binary("<=", v, hi, 64, False)):
                    return pos
        return dflt

    def s_case(self, s, fr):
        return self.exec(s["s"], fr)

    def s_ret(self, s, fr):
        if "e" not in s:
            return ("ret", None)
        v = self.eval(s["e"], fr)
        return ("ret", v)

    def s_try(self, s, fr):
        try:
            return self.exec(s["s"], fr)
        except ThrowEx as ex:
            for h in s["h"]:
                if "t" not in h:
                    return self.exec(h["s"], fr)
                tn = self.type_unq(h["t"])
                if tn == ex.tname or (tn == "std::exception" and ex.tname.startswith("std::")):
                    fr.env[h["v"]] = Cell(ex.value if ex.value is not None else Ext(tn, self.fresh_name("exc")))
                    return self.exec(h["s"], fr)
            raise

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        return self._ev[e["k"]](e, fr)

    def rvalue(self, v):
        if isinstance(v, Cell):
            return self.copy_val(v.v)
        return v

    def value(self, e, fr):
        """evaluate to a value (never a cell)"""
        v = self.eval(e, fr)
        if isinstance(v, Cell):
            return v.v
        return v

    def e_unk(self, e, fr):
        self.note("unsupported expression %s" % e.get("c"))
        h = Havoc("unsupported expression %s" % e.get("c"))
        return Cell(h) if "lv" in e else h

    def e_int(self, e, fr):
        return int(e["v"])

    def e_load(self, e, fr):
        c = self.eval(e["e"], fr)
        v = c.v if isinstance(c, Cell) else c
        if v is UNINIT:
            self.event("uninit", self.where(e.get("l")))
            return Havoc("uninitialised")
        return v

    def e_var(self, e, fr):
        c = fr.find(e["v"])
        if c is not None:
            return c
        if e["sc"] == "global":
            return self.global_cell(e["q"], e["n"], e["t"])
        raise AnalysisBroken("unbound variable %s (%s)" % (e["n"], self.where(e.get("l"))))

    def global_cell(self, q, n, t):
        c = self.globals.get(q)
        if c is None:
            v = self.p.vars.get(q)
            if v is not None and "init" in v:
                self.globals[q] = c = Cell(UNINIT, n)
                x = self.rvalue(self.eval(v["init"], Frame(None)))
                c.v = x
            elif n == "nullopt":
                c = Cell(Ext("std::nullopt_t", "nullopt"), n)
            else:
                ty = self.p.strip(t)
                if ty["k"] == "rec" and ty["n"] in ORDERINGS and n in ORDERING:
                    c = Cell(ORDERING[n], n)
                elif ty["k"] == "rec":
                    c = Cell(Ext(ty["n"], n), n)
                else:
                    c = Cell(self.fresh(t, "global " + n), n)
            self.globals[q] = c
        return c

    def e_this(self, e, fr):
        c = fr.this
        if c is None and fr.clos is not None:
            c = fr.clos.this
        if fr.clos is not None and fr.clos.this is not None and (fr.fn is None or "lambda" in fr.fn):
            c = fr.clos.this
        if c is None:
            raise AnalysisBroken("no this (%s)" % self.where(e.get("l")))
        return Ptr(c)

    def e_mem(self, e, fr):
        b = self.eval(e["b"], fr)
        if e.get("ar"):
            b = self.deref(b.v if isinstance(b, Cell) else b, e.get("l"))
        o = self.obj_of(b)
        if e.get("anon") or e["n"] == "":
            return b if isinstance(b, Cell) else Cell(b)
        if isinstance(o, Havoc) or not isinstance(o, Obj):
            if o is UNINIT:
                self.event("uninit", self.where(e.get("l")))
            return Cell(Havoc("member %s of unknown" % e["n"]))
        if isinstance(o, Ext) and e["n"] not in o.fields:
            t = self.p.strip(e["t"])
            o.fields[e["n"]] = Cell(self.fresh(e["t"], "%s.%s" % (o.path or o.rec, e["n"])))
        return self.field(o, e["n"])

    def e_temp(self, e, fr):
        v = self.eval(e["e"], fr)
        return v if isinstance(v, Cell) else Cell(v)

    def e_str(self, e, fr):
        return StrObj(None, e["v"])

    def e_stmtexpr(self, e, fr):
        r = self.exec(e["s"], fr)
        return None

    def e_fref(self, e, fr):
        return FnRef(e["f"], e["q"], e)

    def e_throw(self, e, fr):
        if e.get("e") is None:
            raise ThrowEx("rethrow", None, e.get("l"), self.where())
        v = self.value(e["e"], fr)
        tn = self.type_unq(e["e"]["t"])
        msg = ""
        if isinstance(v, Obj) and "message" in v.fields and isinstance(v.fields["message"].v, StrObj):
            msg = v.fields["message"].v.concrete() or ""
        self.event("throw", tn, msg, self.where(e.get("l")))
        raise ThrowEx(tn, v, e.get("l"), self.where(e.get("l")), msg)

    def e_idx(self, e, fr):
        b = self.value(e["b"], fr)
        i = self.value(e["i"], fr)
        if isinstance(b, VecObj):
            return self.elem(b, i, e.get("l"))
        if isinstance(b, ElemPtr):
            return self.elem(b.vec, add(b.idx, i), e.get("l"))
        if isinstance(b, StrObj):
            return Cell(self.char_at(b, i))
        if isinstance(b, Ptr) and i == 0:
            return b.cell
        return Cell(Havoc("subscript"))

    def e_new(self, e, fr):
        v = self.value(e["e"], fr) if e.get("e") else self.default_value(e["at"])
        return Ptr(Cell(v))

    def e_delete(self, e, fr):
        self.eval(e["e"], fr)
        return None

    def e_arrcopy(self, e, fr):
        v = self.value(e["e"], fr)
        return self.copy_val(v)

    def e_dinit(self, e, fr):
        return self.eval(e["e"], fr)

    def e_stdinit(self, e, fr):
        v = self.value(e["e"], fr)
        return v

    def e_cast(self, e, fr):
        ck = e["ck"]
        v = self.eval(e["e"], fr)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "FunctionToPointerDecay",
                  "LValueBitCast", "ReinterpretMemberPointer", "BuiltinFnToFnPtr"):
            return v
        if ck == "ArrayToPointerDecay":
            o = self.obj_of(v)
            if isinstance(o, VecObj):
                return ElemPtr(o, 0)
            return o
        if ck == "NullToPointer":
            return NULL
        if isinstance(v, Cell):
            v = v.v
        if ck == "PointerToBoolean":
            return self.truth(v)
        if ck == "ToVoid":
            return None
        if ck == "IntegralToBoolean":
            if isinstance(v, int):
                return int(v != 0)
            if isinstance(v, Havoc):
                return v
            if isinstance(v, Cond):
                return v
            return Cond("eq", v, True)
        if ck == "IntegralCast":
            return self.int_cast(v, self.type(e["t"]), self.type(e["e"]["t"]))
        if ck == "MemberPointerToBoolean":
            return 1
        if ck == "NullToMemberPointer":
            return NULL
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            return Havoc("float")
        self.note("cast " + ck)
        return Havoc("cast " + ck)

    def int_cast(self, v, to, frm):
        bits, sg = ty_int(to)
        if isinstance(v, int):
            return ops.wrap(v, bits, sg)
        if isinstance(v, Havoc) or not is_sym(v):
            return v
        if isinstance(v, Cond):
            return App("b", (v,), 1)
        fb, fs = ty_int(frm)
        # value preserving?
        if fb == 1 or (bits > fb and (sg or not fs)) or (bits == fb and sg == fs):
            return v
        lo, hi = self.facts.bounds(self.facts.norm(v)) if not isinstance(self.facts.norm(v), int) else (0, 0)
        tl, th = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if lo >= tl and hi <= th:
            return v
        if bits == 128 and fb == 128 and self.opts.get("split_casts"):
            # partition on the sign: the conversion is then an affine map
            if sg:
                return v if self.decide(ops.binary("<=", v, (1 << 127) - 1, 128, False)) else sub(v, 1 << 128)
            return v if self.decide(ops.binary(">=", v, 0, 128, True)) else add(v, 1 << 128)
        if self.opts.get("linear") and fb == 128 and bits == 64 and tl - (1 << 64) <= lo and hi <= th + (1 << 64):
            # at most one wrap: the conversion is affine on each part
            if self.decide(ops.binary("<=", v, th, 256, True)):
                return v if self.decide(ops.binary(">=", v, tl, 256, True)) else add(v, 1 << 64)
            return sub(v, 1 << 64)
        if bits <= 64 and fb <= 64 and self.opts.get("soft_casts", True):
            # index arithmetic: exact while in range, which is what the value checks below rely on
            n = self.facts.norm(v)
            a = self.facts.decide_ge(sub(n, tl)) if not isinstance(n, int) else True
            b = self.facts.decide_ge(sub(th, n)) if not isinstance(n, int) else True
            if a and b:
                return v
            if to["k"] == "enum" or frm["k"] == "enum":
                return v
            if bits >= 62 and fb >= 62 and isinstance(n, (Lin, Sym)) and a is not False and b is not False:
                # size arithmetic: differences of sizes that fit
                return v
        return App("cast", (v,), bits, sg)

    def e_un(self, e, fr):
        op = e["op"]
        if op == "*":
            p = self.value(e["e"], fr)
            return self.deref(p, e.get("l"))
        if op == "&":
            if e["e"]["k"] == "fieldref":
                return MemPtr(e["e"]["n"])
            if e["e"]["k"] == "fref":
                return FnRef(e["e"]["f"], e["e"]["q"], e["e"])
            c = self.eval(e["e"], fr)
            return Ptr(c if isinstance(c, Cell) else Cell(c))
        if op in ("++", "--"):
            c = self.eval(e["e"], fr)
            old = c.v
            if isinstance(old, ElemPtr):
                new = ElemPtr(old.vec, add(old.idx, 1 if op == "++" else -1))
            elif isinstance(old, (int, Sym, App, Lin)):
                bits, sg = ty_int(self.p.strip(e["e"]["t"]))
                if self.on_arith:
                    self.on_arith(self, e, op[0], old, 1, bits, sg)
                new = ops.binary("+" if op == "++" else "-", old, 1, bits, sg)
            elif isinstance(old, StrObj):
                new = StrObj(old.rec, old.base, add(old.off, 1 if op == "++" else -1), sub(old.length, 1))
            else:
                new = Havoc("increment")
            c.v = new
            return old if e.get("post") else c
        v = self.value(e["e"], fr)
        if isinstance(v, Havoc):
            return v
        if op == "!":
            v = self.truth(v)
            if isinstance(v, Havoc):
                return v
            return ops.unary("!", v, 1, False)
        if v is UNINIT or not (isinstance(v, int) or is_sym(v)):
            return Havoc("unary " + op)
        bits, sg = ty_int(self.type(e["t"]))
        if self.on_arith and op == "-":
            self.on_arith(self, e, "neg", v, 0, bits, sg)
        return ops.unary(op, self.concrete(v), bits, sg)

    def e_bin(self, e, fr):
        op = e["op"]
        if op == "&&":
            if not self.decide(self.truth(self.value(e["a"], fr))):
                return 0
            return self.truth(self.value(e["b"], fr))
        if op == "||":
            if self.decide(self.truth(self.value(e["a"], fr))):
                return 1
            return self.truth(self.value(e["b"], fr))
        if op == ",":
            self.eval(e["a"], fr)
            return self.eval(e["b"], fr)
        if op in (".*", "->*"):
            return self.member_ptr(self.eval(e["a"], fr), self.value(e["b"], fr))
        a = self.value(e["a"], fr)
        b = self.value(e["b"], fr)
        return self.binop(op, a, b, e)

    def member_ptr(self, a, m):
        o = a.v if isinstance(a, Cell) else a
        if isinstance(o, (Ptr, SymPtr)):
            o = self.deref(o).v
        if isinstance(m, MemPtr) and isinstance(o, Obj):
            return self.field(o, m.name)
        return Cell(Havoc("member pointer"))

    def linear(self, op, a, b, bits, sg):
        """exact linear value of a wide operation (option "linear"); splits on whether it fits the type"""
        if bits <= 64 or not self.opts.get("linear") or (isinstance(a, int) and isinstance(b, int)):
            return None
        if op == "<<" and isinstance(b, int) and 0 <= b < bits:
            op, b = "*", 1 << b
        elif op in ("|", "^"):
            # digits below the lowest set bit are added
            for x, y in ((a, b), (b, a)):
                lo, hi = self.facts.bounds(self.facts.norm(y)) if is_sym(y) else (y, y)
                m = 1
                while m <= hi and m < 1 << bits:
                    m *= 2
                k = [x] if isinstance(x, int) else [x.c] + [c for _, c in x.t] if isinstance(x, Lin) else [1]
                if 0 <= lo and hi < m and all(c % m == 0 for c in k):
                    op = "+"
                    break
        if op not in ("+", "-", "*"):
            return None
        if op == "*" and is_sym(a) and is_sym(b):
            return None
        r = add(a, b) if op == "+" else sub(a, b) if op == "-" else scale(b, a) if isinstance(a, int) else scale(a, b)
        if isinstance(r, int):
            return ops.wrap(r, bits, sg)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        l, h = self.facts.bounds(self.facts.norm(r))
        if not l - h > -64 << bits:
            return None     # a product which wraps around in many ways
        k = (l - lo) >> bits
        if k:
            r = self.facts.norm(sub(r, k << bits))
        for _ in range(70):
            if isinstance(r, int):
                return ops.wrap(r, bits, sg)
            if not self.decide(Cond("ge", sub(hi, r))):
                r = self.facts.norm(sub(r, 1 << bits))
            elif not self.decide(Cond("ge", sub(r, lo))):
                r = self.facts.norm(add(r, 1 << bits))
            else:
                return self.facts.norm(r)
        return None

    def binop(self, op, a, b, e):
        if op in (".*", "->*"):
            return Cell(Havoc("member pointer"))
        if isinstance(a, (ElemPtr,)) or isinstance(b, ElemPtr):
            return self.ptr_arith(op, a, b)
        if is_ptr(a) or is_ptr(b):
            return self.ptr_cmp(op, a, b)
        if a is UNINIT or b is UNINIT:
            self.event("uninit", self.where(e.get("l")))
            return Havoc("uninitialised")
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            return Havoc("arithmetic on unknown")
        if not (isinstance(a, int) or is_sym(a)) or not (isinstance(b, int) or is_sym(b)):
            if isinstance(a, StrObj) and op == "+":
                return StrObj(a.rec, a.base, add(a.off, b), sub(a.length, b))
            return Havoc("operation %s" % op)
        a, b = self.concrete(a), self.concrete(b)
        if op == "<=>":
            if isinstance(a, int) and isinstance(b, int):
                return (a > b) - (a < b)
            if self.decide(ops.binary("==", a, b, 64, True)):
                return 0
            return -1 if self.decide(ops.binary("<", a, b, 64, True)) else 1
        cmp = op in ("==", "!=", "<", "<=", ">", ">=")
        bits, sg = ty_int(self.type(e["a"]["t"] if cmp or op in ("<<", ">>") else e["t"]))
        if self.on_arith and not cmp:
            self.on_arith(self, e, op, a, b, bits, sg)
        r = self.linear(op, a, b, bits, sg)
        if r is not None:
            return r
        r = ops.binary(op, a, b, bits, sg)
        if r is None:
            self.event("undefined-arith", op, self.where(e.get("l")))
            raise PathEnd("undefined arithmetic")
        if op == "&" and isinstance(r, App):
            return self.facts.norm(r)
        return r

    def ptr_arith(self, op, a, b):
        if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
            va, ia = self.base_of(a)
            vb, ib = self.base_of(b)
            if va is vb:
                if op == "-":
                    return sub(ia, ib)
                if op in ("==", "!=", "<", "<=", ">", ">="):
                    return ops.binary(op, ia, ib, 64, True)
                if op == "<=>":
                    return sub(ia, ib)
            if op == "==":
                return 0
            if op == "!=":
                return 1
            return Havoc("pointers into different arrays")
        if op in ("==", "!=") and (a is NULL or b is NULL):
            return int(op == "!=")
        if op == "+":
            if isinstance(a, ElemPtr):
                return ElemPtr(a.vec, add(a.idx, b))
            return ElemPtr(b.vec, add(b.idx, a))
        if op == "-":
            return ElemPtr(a.vec, sub(a.idx, b))
        if op in ("==", "!="):
            # an element against the address of an object
            x = a if isinstance(a, ElemPtr) else b
            y = b if x is a else a
            if isinstance(y, Ptr):
                r = int(self.elem(x.vec, x.idx) is y.cell)
                return r if op == "==" else 1 - r
            return int(op == "!=")
        return Havoc("pointer arithmetic")

    def base_of(self, p):
        v, i = p.vec, p.idx
        while isinstance(v, SpanObj):
            i = add(v.off, i)
            v = v.vec
        if isinstance(v, StrObj):
            return _strbase(v.base), add(v.off, i)
        return v, i

    def ptr_cmp(self, op, a, b):
        if op not in ("==", "!="):
            return Havoc("pointer order")
        r = self.ptr_eq(a, b)
        if isinstance(r, int):
            return r if op == "==" else 1 - r
        if isinstance(r, Havoc):
            return r
        return r if op == "==" else ops.unary("!", r, 1, False)

    def ptr_eq(self, a, b):
        if a is NULL and b is NULL:
            return 1
        if a is NULL or b is NULL:
            x = b if a is NULL else a
            if isinstance(x, SymPtr):
                return ops.unary("!", self.truth(x), 1, False)
            if isinstance(x, Ext) and "p" in x.fields:
                return self.ptr_eq(x.fields["p"].v, NULL)
            if isinstance(x, Havoc):
                return x
            return 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return int(a.cell is b.cell)
        if isinstance(a, SymPtr) and isinstance(b, SymPtr):
            if a.name == b.name:
                return 1
            n = sorted((a.name, b.name))
            return Sym("same(%s,%s)" % tuple(n), 1)
        if isinstance(a, (Ptr, SymPtr)) and isinstance(b, (Ptr, SymPtr)):
            p, s = (a, b) if isinstance(a, Ptr) else (b, a)
            c = self.pointees.get(s.name)
            if c is not None:
                return int(c is p.cell)
            if p.cell.name and p.cell.name == "*" + s.name:
                return 1
            return Sym("same(%s,%s)" % (s.name, p.cell.name or id_of(self, p.cell)), 1)
        if isinstance(a, FnRef) and isinstance(b, FnRef):
            return int(a.key == b.key)
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return int(a.entry is b.entry)
        return Havoc("pointer equality")

    def e_assign(self, e, fr):
        b = self.value(e["b"], fr)
        c = self.eval(e["a"], fr)
        if not isinstance(c, Cell):
            c = Cell(c)
        self.store(c, b)
        return c

    def store(self, c, v):
        hk = self.opts.get("on_store")
        if hk:
            hk(self, c, v)
        if isinstance(v, Obj) and not isinstance(v, Closure) and isinstance(c.v, Obj) and type(c.v) is type(v):
            c.v.assign(v)
        else:
            c.v = v

    def e_cassign(self, e, fr):
        c = self.eval(e["a"], fr)
        b = self.value(e["b"], fr)
        a = c.v
        if a is UNINIT:
            self.event("uninit", self.where(e.get("l")))
            a = Havoc("uninitialised")
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            c.v = Havoc("arithmetic on unknown")
            return c
        if isinstance(a, ElemPtr):
            c.v = self.ptr_arith(e["op"], a, b)
            return c
        if not (isinstance(a, int) or is_sym(a)) or not (isinstance(b, int) or is_sym(b)):
            c.v = Havoc("compound assignment")
            return c
        a, b = self.concrete(a), self.concrete(b)
        lt = self.p.strip(e["a"]["t"])
        ct = self.type(e["ct"])
        a2 = self.int_cast(a, ct, lt)
        bits, sg = ty_int(ct)
        if self.on_arith:
            self.on_arith(self, e, e["op"], a2, b, bits, sg)
        r = self.linear(e["op"], a2, b, bits, sg)
        if r is None:
            r = ops.binary(e["op"], a2, b, bits, sg)
        if r is None:
            self.event("undefined-arith", e["op"], self.where(e.get("l")))
            raise PathEnd("undefined arithmetic")
        c.v = self.int_cast(r, lt, ct)
        return c

    def e_cond(self, e, fr):
        if self.decide(self.truth(self.value(e["c"], fr))):
            v = self.eval(e["a"], fr)
        else:
            v = self.eval(e["b"], fr)
        if "lv" in e:
            return v if isinstance(v, Cell) else Cell(v)
        return self.rvalue(v)

    def e_lambda(self, e, fr):
        c = Closure(e)
        for cap in e["caps"]:
            if cap["k"] == "this":
                c.this = self.e_this(e, fr).cell
            elif cap["k"] in ("ref", "copy"):
                v = self.eval(cap["init"], fr) if cap.get("init") is not None else fr.find(cap["v"])
                if cap["k"] == "ref" or (cap.get("ic") and self.type(cap["t"])["k"] in ("ref", "rref")):
                    c.caps[cap["v"]] = v if isinstance(v, Cell) else Cell(v)
                else:
                    c.caps[cap["v"]] = Cell(self.rvalue(v))
        if c.this is None and fr.this is not None:
            c.this = None
        return c

    def e_init(self, e, fr):
        t = e["t"]
        ty = self.p.strip(t)
        if ty["k"] == "arr":
            v = VecObj(None, ty["to"], ty["len"], None, "array")
            for i, x in enumerate(e["a"]):
                v.elems[i] = Cell(self.rvalue(self.eval(x, fr)))
            for i in range(len(e["a"]), min(ty["len"], 256)):
                v.elems[i] = Cell(self.zero(ty["to"]))
            return v
        if ty["k"] == "rec":
            rec = ty["n"]
            nat, ta = self.p.native(rec)
            if nat == "array":
                if len(e["a"]) == 1 and self.type(e["a"][0]["t"])["k"] == "arr":
                    v = self.rvalue(self.eval(e["a"][0], fr))
                    if isinstance(v, VecObj):
                        v.rec = rec
                        return v
                v = VecObj(rec, ta[0][1], ta[1][1], None, "array")
                for i, x in enumerate(e["a"]):
                    v.elems[i] = Cell(self.rvalue(self.eval(x, fr)))
                return v
            o = Obj(rec)
            r = self.p.records.get(rec)
            if r is None:
                return Havoc("init of " + rec)
            names = []
            i = 0
            args = e["a"]
            for b in r["bases"]:
                if i < len(args):
                    v = self.value(args[i], fr)
                    i += 1
                    if isinstance(v, Closure):
                        o.closures = getattr(o, "closures", ()) + (v,)
                        continue
                    if isinstance(v, VariantObj) or (isinstance(v, Obj) and not v.fields and type(v) is not Obj):
                        o = v
                        o.rec = rec
                    elif isinstance(v, Obj):
                        for k, c in v.fields.items():
                            o.fields[k] = c
            this = Frame(fr.fn, Cell(o), fr.clos)
            this.env = fr.env
            if e.get("uf"):
                o.fields[e["uf"]] = Cell(self.rvalue(self.eval(args[0], fr)))
                return o
            for f in r["fields"]:
                if i >= len(args):
                    break
                a = args[i]
                i += 1
                v = self.eval(a["e"], this) if a["k"] == "dinit" else self.eval(a, fr)
                if self.type(f["t"])["k"] in ("ref", "rref"):
                    o.fields[f["n"]] = v if isinstance(v, Cell) else Cell(v)
                else:
                    o.fields[f["n"]] = Cell(self.rvalue(v))
            return o
        if len(e["a"]) == 1:
            return self.eval(e["a"][0], fr)
        if not e["a"]:
            return self.zero(t)
        return Havoc("init list")

    # ------------------------------------------------------------------ calls
    def args_of(self, e, fr):
        """evaluate arguments according to the parameter passing kinds"""
        out = []
        pt = e.get("pt") or []
        for i, a in enumerate(e["a"]):
            v = self.eval(a, fr)
            if i < len(pt) and self.type(pt[i])["k"] in ("ref", "rref"):
                out.append(v if isinstance(v, Cell) else Cell(v))
            elif i < len(pt):
                out.append(self.rvalue(v))
            else:
                out.append(v)
        return out

    def e_call(self, e, fr):
        if e.get("l"):
            fr.line = e["l"]
        if "fe" in e and e["fe"].get("k") == "bin" and e["fe"]["op"] in ("->*", ".*"):
            o = self.eval(e["fe"]["a"], fr)
            if e["fe"]["op"] == "->*":
                o = self.deref(o.v if isinstance(o, Cell) else o, e.get("l"))
            fv = self.value(e["fe"]["b"], fr)
            return self.fix(e, self.apply(fv, [o if isinstance(o, Cell) else Cell(o)] + [self.eval(x, fr) for x in e["a"]], e.get("l")))
        if "fe" in e:
            fv = self.value(e["fe"], fr)
            args = [self.eval(a, fr) for a in e["a"]]
            return self.fix(e, self.apply(fv, args, e.get("l")))
        obj = None
        if "o" in e:
            obj = self.eval(e["o"], fr)
            if e.get("oar"):
                p = obj.v if isinstance(obj, Cell) else obj
                hk = self.opts.get("on_arrow")
                obj = self.deref(p, e.get("l"))
            elif not isinstance(obj, Cell):
                obj = Cell(obj)
        args = self.args_of(e, fr)
        return self.fix(e, self.dispatch(e, obj, args, fr))

    def fix(self, e, v):
        if "lv" in e:
            return v if isinstance(v, Cell) else Cell(v)
        return self.rvalue(v)

    def dispatch(self, e, obj, args, fr=None):
        q = e["q"]
        h = self.hooks.get(q) or self.hooks.get(e["f"])
        if h is not None:
            r = h(self, e, obj, args)
            if r is not NotImplemented:
                return r
        if e.get("virt") and not e.get("novirt") and obj is not None and isinstance(obj.v, Obj):
            f = self.find_override(e, obj.v)
            if f is not None:
                hq = self.hooks.get(f["q"])
                if hq is not None:
                    r = hq(self, dict(e, q=f["q"], f=f["f"]), obj, args)
                    if r is not NotImplemented:
                        return r
                return self.call_fn(f, obj, args)
            vh = self.opts.get("on_virtual")
            if vh is not None:
                r = vh(self, e, obj, args)
                if r is not NotImplemented:
                    return r
            self.note("virtual call " + q)
            return self.unknown_result(e, q)
        from . import models
        r = models.call(self, e, obj, args)
        if r is not NotImplemented:
            return r
        f = self.p.funcs.get(e["f"])
        if f is None or "b" not in f or f["b"] is None:
            if e.get("defassign"):
                self.store(obj, self.rvalue(args[0]))
                return obj
            if e.get("noreturn"):
                self.event("noreturn", q, self.where(e.get("l")))
                raise PathEnd("noreturn " + q)
            unk = self.opts.setdefault("unmodelled", {})
            unk[q] = unk.get(q, 0) + 1
            return self.unknown_result(e, q)
        if e.get("defassign"):
            self.store(obj, self.rvalue(args[0]))
            return obj
        return self.call_fn(f, obj, args)

    def unknown_result(self, e, q):
        t = e["t"]
        ty = self.type(t)
        if ty["k"] == "void":
            return None
        nm = self.fresh_name("ext:" + short(q))
        if ty["k"] == "rec" or "lv" in e:
            if "lv" in e:
                return Cell(self.fresh(t, nm, "havoc"))
            return self.fresh(t, nm, "havoc")
        return self.fresh(t, nm, "havoc")

    def find_override(self, e, o):
        """most derived override for a known dynamic type"""
        if isinstance(o, Ext) or o.rec is None or o.path is not None and not self.opts.get("static_types_exact"):
            return None
        rec = o.rec
        want = e["n"]
        key = e["f"]
        seen = set()
        while rec and rec not in seen:
            seen.add(rec)
            r = self.p.records.get(rec)
            if r is None:
                return None
            for m in r.get("methods", []):
                if m["n"] == want and (m["f"] == key or self.overrides(m, key)):
                    return self.p.funcs.get(m["f"])
            bs = [self.type(b)["n"] for b in r["bases"] if self.type(b)["k"] == "rec"]
            rec = bs[0] if bs else None
        return None

    def overrides(self, m, key):
        todo = list(m.get("ov", []))
        seen = set()
        while todo:
            k = todo.pop()
            if k == key:
                return True
            if k in seen:
                continue
            seen.add(k)
            mm = self.method_by_key(k)
            if mm:
                todo += mm.get("ov", [])
        return False

    def method_by_key(self, k):
        idx = self.p.__dict__.setdefault("_methods", None)
        if idx is None:
            idx = {}
            for r in self.p.records.values():
                for m in r.get("methods", []):
                    idx[m["f"]] = m
            self.p._methods = idx
        return idx.get(k)

    def apply(self, fv, args, line=None):
        """call a function value"""
        fv = fv.v if isinstance(fv, Cell) else fv
        if isinstance(fv, Closure):
            f = None
            cands = [self.p.funcs[k] for k in fv.node["ops"] if k in self.p.funcs]
            if len(cands) == 1:
                f = cands[0]
            else:
                for c in cands:
                    if len(c["p"]) == len(args) and self.args_fit(c, args):
                        f = c
                        break
            if f is None:
                return Havoc("lambda")
            return self.call_fn(f, Cell(fv), [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
        if isinstance(fv, FnRef):
            f = self.p.funcs.get(fv.key)
            h = self.hooks.get(fv.q) or self.hooks.get(fv.key)
            node = fv.node or {}
            if node.get("m"):
                obj, args = args[0], args[1:]
            else:
                obj = None
            if h is not None:
                r = h(self, node, obj, args)
                if r is not NotImplemented:
                    return r
            if f is not None:
                return self.call_fn(f, obj, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
        if isinstance(fv, MemPtr):
            o = args[0].v if isinstance(args[0], Cell) else args[0]
            if isinstance(o, (Ptr, SymPtr)):
                o = self.deref(o).v
            if isinstance(o, Obj):
                return self.field(o, fv.name)
        if isinstance(fv, Obj) and not isinstance(fv, Ext):
            r = self.p.records.get(fv.rec)
            if r:
                ms = [m for m in r.get("methods", []) if m["n"] == "operator()"]
                if len(ms) == 1 and ms[0]["f"] in self.p.funcs:
                    return self.call_fn(self.p.funcs[ms[0]["f"]], Cell(fv), [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
        self.note("call of unknown function value")
        return Havoc("call of unknown function value")

    def args_fit(self, f, args):
        for p, a in zip(f["p"], args):
            ty = self.p.strip(p["t"])
            v = a.v if isinstance(a, Cell) else a
            if isinstance(v, Obj) and v.rec and ty["k"] == "rec" and ty["n"] != v.rec:
                return False
        return True

    def call_fn(self, f, this, args, by_decl=False):
        self.entered.add(f["f"])
        if len(self.stack) >= self.max_depth:
            self.note("depth bound")
            raise PathEnd("depth bound")
        rl = self.opts.get("rec_limit", 2)
        n = 0
        for fr0 in self.stack:
            if fr0.fn is f:
                n += 1
        if n > rl:
            rh = self.opts.get("on_recursion")
            if rh is not None:
                r = rh(self, f, this, args)
                if r is not NotImplemented:
                    return r
            self.note("recursion bound " + f["q"])
            raise PathEnd("recursion bound")
        fr = Frame(f, this)
        if this is not None and isinstance(this.v, Closure):
            fr.clos = this.v
            fr.this = this.v.this
        ps = f["p"]
        for i, p in enumerate(ps):
            if i >= len(args):
                break
            a = args[i]
            if self.type(p["t"])["k"] in ("ref", "rref"):
                fr.env[p["v"]] = a if isinstance(a, Cell) else Cell(a)
            else:
                v = a.v if isinstance(a, Cell) else a
                if by_decl:
                    v = self.copy_val(v)
                fr.env[p["v"]] = Cell(v, p.get("n"))
        self.stack.append(fr)
        try:
            if f.get("ctor"):
                self.run_inits(f, fr)
            r = self.exec(f["b"], fr)
            if r is None:
                rt = self.type(f["rt"])
                if rt["k"] != "void" and not f.get("ctor") and not f.get("dtor") and f["n"] != "main":
                    self.event("no-return", short(f["q"]), "%s:%s" % (rel(f["file"]), f.get("el")))
                    raise PathEnd("flows off the end of a value-returning function")
                return None
            v = r[1] if isinstance(r, tuple) else None
            if self.type(f["rt"])["k"] in ("ref", "rref"):
                return v if isinstance(v, Cell) else Cell(v)
            return self.rvalue(v)
        finally:
            self.stack.pop()

    def run_inits(self, f, fr):
        o = fr.this.v
        for i in f.get("inits", []):
            if i.get("deleg"):
                v = self.value(i["e"], fr)
                if isinstance(v, Obj):
                    o.fields.update(v.fields)
                    if type(v) is not Obj and type(o) is Obj:
                        fr.this.v = v
                continue
            if "base" in i:
                v = self.value(i["e"], fr)
                if isinstance(v, Obj) and type(v) is not Obj and not isinstance(v, Ext):
                    v.rec = o.rec
                    v.fields.update(o.fields)
                    fr.this.v = v
                    o = v
                elif isinstance(v, Obj):
                    for k, c in v.fields.items():
                        o.fields[k] = c
                continue
            v = self.eval(i["e"], fr)
            if self.type(i["mt"])["k"] in ("ref", "rref"):
                o.fields[i["m"]] = v if isinstance(v, Cell) else Cell(v)
            else:
                o.fields[i["m"]] = Cell(self.rvalue(v))

    def e_ctor(self, e, fr):
        t = e["t"]
        ty = self.p.strip(t)
        if ty["k"] == "arr":
            v = VecObj(None, ty["to"], ty["len"], None, "array")
            for i in range(min(ty["len"], 64)):
                v.elems[i] = Cell(self.default_value(ty["to"], e.get("zi", False)))
            return v
        rec = ty["n"]
        h = self.hooks.get(e["q"]) or self.hooks.get(e["f"])
        if h is not None:
            r = h(self, e, None, self.args_of(e, fr))
            if r is not NotImplemented:
                return r
        nat, ta = self.p.native(rec)
        if (e.get("cp") or e.get("mv")) and (nat or e.get("triv") or e.get("ext")):
            v = self.eval(e["a"][0], fr)
            o = v.v if isinstance(v, Cell) else v
            if isinstance(v, Cell):
                o = self.copy_val(o)
            if isinstance(o, Obj) and o.rec is None:
                o.rec = rec
            if e.get("mv") and isinstance(v, Cell) and isinstance(v.v, Ext) and nat == "uptr":
                v.v.fields["p"] = Cell(NULL)
            if isinstance(o, VariantObj) and nat == "variant":
                o.rec = rec
            return o
        from . import models
        if nat:
            args = self.args_of(e, fr)
            r = models.construct(self, e, rec, nat, ta, args)
            if r is not NotImplemented:
                return r
        f = self.p.funcs.get(e["f"])
        if f is None or f.get("b") is None:
            if e.get("dc"):
                return self.default_obj(self.p.rec_type.get(rec, t), e.get("zi", False))
            args = self.args_of(e, fr)
            r = models.construct_ext(self, e, rec, args)
            if r is not NotImplemented:
                return r
            x = Ext(rec, self.fresh_name("ext:" + short(rec)))
            x.fields["#args"] = Cell(args)
            return x
        args = self.args_of(e, fr)
        o = Obj(rec)
        c = Cell(o)
        self.call_fn(f, c, args)
        return c.v

    def construct_rec(self, rec, ctor_pred, args):
        raise NotImplementedError


class _StrBase:
    pass


_bases = {}


def _strbase(b):
    k = b if isinstance(b, str) else ("sym", b.name)
    if k not in _bases:
        _bases[k] = _StrBase()
    return _bases[k]


def id_of(run, cell):
    n = run.opts.setdefault("_cellids", {})
    # deterministic per path: numbered in order of first use
    if id(cell) not in n:
        n[id(cell)] = "obj%d" % len(n)
        run.cells_keep.append(cell)
    return n[id(cell)]


def is_ptr(v):
    return v is NULL or isinstance(v, (Ptr, SymPtr, FnRef, MapIt)) or (isinstance(v, Ext) and "p" in v.fields)


def ty_int(ty):
    k = ty["k"]
    if k == "bool":
        return 1, False
    if k == "int":
        return ty["bits"], ty["sg"]
    if k == "enum":
        return ty.get("bits", 32), bool(ty.get("sg"))
    return 64, False


def rel(f):
    i = f.find("/src/")
    return f[i + 1:] if i >= 0 else f


def short(q):
    return q.replace("bit_manipulation::", "").replace("(anonymous namespace)::", "")


def flatten_switch(s):
    """(statement sequence, [(lo, hi, position)], default position)"""
    body = s["s"]
    seq, cases, dflt = [], [], [None]
    stmts = body["s"] if body["k"] == "blk" else [body]

    def add_stmt(x):
        while x is not None and x["k"] in ("case", "default"):
            if x["k"] == "case":
                lo = int(x["v"]["v"])
                hi = int(x["v2"]["v"]) if "v2" in x else lo
                cases.append((lo, hi, len(seq)))
            else:
                dflt[0] = len(seq)
            x = x["s"]
        seq.append(x)
    for x in stmts:
        add_stmt(x)
    return seq, cases, dflt[0]


class Path:
    """the outcome of one path"""
    __slots__ = ("run", "kind", "value", "exc", "why")

    def __init__(self, run, kind, value=None, exc=None, why=None):
        self.run, self.kind, self.value, self.exc, self.why = run, kind, value, exc, why


def explore(prog, entry, hooks=None, opts=None, max_paths=20000, stats=None):
    """yields a Path for every partition of the abstract start state built by entry(run)"""
    prefix = []
    n = 0
    while prefix is not None:
        n += 1
        if n > max_paths:
            if stats is not None:
                stats["truncated"] = stats.get("truncated", 0) + 1
            raise TooManyPaths(n)
        orc = Oracle(prefix)
        run = Run(prog, orc, hooks, dict(opts or {}))
        if stats is not None and "unmodelled" in stats:
            run.opts["unmodelled"] = stats["unmodelled"]
        try:
            v = entry(run)
            p = Path(run, "return", v)
        except ThrowEx as ex:
            p = Path(run, "throw", exc=ex)
        except PathEnd as ex:
            p = Path(run, "end", why=ex.why)
        yield p
        prefix = orc.next_prefix()
    if stats is not None:
        stats["paths"] = stats.get("paths", 0) + n
