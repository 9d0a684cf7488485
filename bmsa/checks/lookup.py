"""C08: name lookup. Declarations and uses carry opaque names; every way in which these names coincide is analysed, and the target of every use
(or the reported conflict) is compared with the scope rules."""
from ..ast import *  # noqa
from ..ast import Tree, NS, AST, set_behind, ptr
from ..lib import Ext, explain, result_state, explore, fn_by, invoke
from ..names import Names
from .operators import Env, VOID, BOOL, INT, UINT
from .codegen import operator_node
from .analysis import Maker, X, Err, TOKEN, UTOKEN

INTT = (INT, 0)


class NMaker(Maker):
    def __init__(self, run, E):
        Maker.__init__(self, run, E)
        run.names = self.names = Names()

    def named(self, x, name, accessor="get_name"):
        x.d["name"] = name
        set_behind(self.run, self.T.body(x.cell).v, accessor, self.names.new(name))
        return x

    def clear(self, x):
        v = self.run.field(self.T.body(x.cell).v, "lookup_result").v
        alts = [tname(self.P, a).split("::")[-1] for a in v.alts]
        v.idx, v.cells, v.path = alts.index("Monostate"), {}, None
        v.cells = {v.idx: Cell(self.run.default_value(v.alts[v.idx], True))}
        return x

    def use(self, name):
        x = self.clear(self.named(self.x("use", "Id_Expression", "use"), name, "get_identifier"))
        self.run.field(self.T.body(x.cell).v, "bit_generic").v = 0
        return x

    def ncall(self, name, *args):
        x = self.x("ncall", "Function_Call_Expression", "call", args, list(args))
        set_behind(self.run, self.T.body(x.cell).v, "is_statement", 0)
        return self.clear(self.named(x, name))

    def nassign(self, name, e):
        return self.clear(self.named(self.x("nassign", "Assignment", "assign", (e,), (e,)), name))

    def nlet(self, name, ty, init):
        return self.named(self.let(ty, init), name)

    def nconst(self, name, ty, init):
        return self.named(self.constdecl(ty, init), name)

    def lit(self):
        return self.literal("decimal_literal", "1")

    def uint(self, width):
        return self.type((UINT, None), width)

    def int(self):
        return self.type(INTT)

    def nfn(self, name, params, rt, body, requires=None):
        """params: (name, type node)"""
        x = self.named(self.fn(name, [t for _, t in params], rt, body, requires), name)
        x.d["pnames"] = [n for n, _ in params]
        x.d["plines"] = []
        for c, (n, _) in zip(x.d["cells"], params):
            set_behind(self.run, c.v, "get_name", self.names.new(n))
            self.line += 1
            from .analysis import set_position
            set_position(self.run, c.v, self.line)
            x.d["plines"].append(self.line)
        return x


class Scope:
    def __init__(self, ref, parent=None):
        self.ref, self.parent, self.here = ref, parent, []

    def find(self, name):
        s = self
        while s is not None:
            for n, t in s.here:
                if self.ref.same(n, name):
                    return t
            s = s.parent
        return None

    def declare(self, name, target, code, place):
        old = self.find(name)
        if old is not None:
            raise Err2(code, place, old)
        self.here.append((name, target))


class Err2(Exception):
    def __init__(self, code, place, cause=None):
        self.code, self.place, self.cause = code, place, cause


class Ref:
    """target of every use: ('node', X) | ('param', function, i) | ('builtin',)"""

    def __init__(self, run):
        self.run = run
        self.got = {}
        self.generic = set()
        self.bitgeneric = set()

    def same(self, a, b):
        def i(n):
            return ("lit", n[1:]) if n.startswith("=") else ("name", n)
        return self.run.names.same(self.run, i(a), i(b))

    def program(self, p):
        b = Scope(self)
        b.here.append(("=assert", ("builtin",)))
        g = Scope(self, b)
        for d in p.kids:
            if d.k == "constdecl":
                g.declare(d.d["name"], ("node", d), "failed_to_define_global_const", d.line)
            elif d.k == "function":
                g.declare(d.d["name"], ("node", d), "failed_to_define_function", d.line)
        for d in p.kids:
            if d.k == "function":
                self.function(d, Scope(self, g))
            elif d.k == "constdecl":
                self.all(d.kids, g)
            else:
                self.all(d.kids, g)

    def function(self, f, s):
        for i, (n, t) in enumerate(zip(f.d["pnames"], f.d["params"])):
            s.declare(n, ("param", f, i), "failed_to_define_parameter", f.d["plines"][i])
            w = t.kids[0]
            if w is None:
                continue
            if w.k == "use":
                r = s.find(w.d["name"])
                if r is None:
                    s.here.append((w.d["name"], ("node", w)))
                    self.generic.add(f)
                    self.bitgeneric.add(w)
                else:
                    self.got[w] = r
            else:
                self.node(w, s)
        for c in (f.d["rt"], f.d["requires"], f.d["body"]):
            self.node(c, s)

    def all(self, xs, s):
        for x in xs:
            self.node(x, s)

    def node(self, x, s):
        if x is None:
            return
        if x.k == "block":
            self.all(x.kids, Scope(self, s))
        elif x.k in ("letdecl", "constdecl"):
            s.declare(x.d["name"], ("node", x), "failed_to_define_variable", x.line)
            self.all(x.kids, s)
        elif x.k in ("use", "ncall", "nassign"):
            r = s.find(x.d["name"])
            if r is None:
                raise Err2({"use": "reference_to_undefined_variable", "ncall": "call_to_undefined_function", "nassign": "assignment_of_undefined_variable"}[x.k], x.line)
            self.got[x] = r
            self.all(x.kids, s)
        else:
            self.all(x.kids, s)


def target_cell(t):
    return t[1].cell if t[0] == "node" else t[1].d["cells"][t[2]]


def read(run, P, x, T):
    v = run.field(T.body(x.cell).v, "lookup_result").v
    i = run.split_value(v.idx)
    kind = tname(P, v.alts[i]).split("::")[-1].rstrip(" *")
    c = run.variant_cell(v, i)
    return kind, c.v


def run_case(ctx, E, key, build, limit=6000):
    P = ctx.p
    f = fn_by(P, "bms::analyze_name_lookup", ["Analyzed_Program", None])
    state = {}

    def get_root(run, e, obj, args):
        return ptr(state["root"])
    hooks = {NS + "Analyzed_Program::get_root": get_root}

    def entry(run):
        state.pop("root", None)
        mk = NMaker(run, E)
        x = build(mk)
        state["root"] = x.cell
        fs = [n for n in x.walk() if n.k == "function"]
        prog = Cell(Obj(P.record(NS + "Analyzed_Program"), "program"))
        mem = run.fresh(f["p"][1]["t"], "memory")
        state["phase"] = "analysis"
        r = invoke(run, f, [prog, mem])
        state["phase"] = "rules"
        st, val = result_state(run, r)
        ref, want = Ref(run), None
        try:
            ref.program(x)
        except Err2 as e:
            want = e
        why = "; ".join("%s%s" % (c if b else c.replace(" = ", " != "), "") for c, b in run.path_conds)
        if want is not None:
            if not ctx.ok(st == "err", key + ":accepted", "%s: accepted although it should be rejected with %s [%s]" % (key, want.code, why)):
                return
            got = E.code(E.ac, run, method(run, val, "code"))
            ctx.ok(got == want.code, key + ":code", "%s: rejected with %s instead of %s [%s]" % (key, got, want.code, why))
            ctx.ok(line_of(run, val, "fail") == want.place, key + ":place", "%s: the error %s is reported at another construct [%s]" % (key, got, why))
            if want.cause is not None and want.cause[0] != "builtin":
                t = want.cause
                line = t[1].line if t[0] == "node" else t[1].d["plines"][t[2]]
                ctx.ok(line_of(run, val, "cause") == line, key + ":cause", "%s: the error %s names another construct as the earlier declaration [%s]" % (key, got, why))
            return
        if not ctx.ok(st == "ok", key + ":rejected", "%s: rejected with %s although all names can be resolved [%s]" % (
                key, "-" if st == "ok" else E.code(E.ac, run, method(run, val, "code")), why)):
            return
        for n in x.walk():
            if n.k not in ("use", "ncall", "nassign"):
                continue
            kind, v = read(run, P, n, mk.T)
            bg = run.decide(run.field(mk.T.body(n.cell).v, "bit_generic").v) if n.k == "use" else False
            ctx.ok(bg == (n in ref.bitgeneric), key + ":bit-generic", "%s: use of %s is %smarked as the introduction of a generic width [%s]" % (key, n.d["name"], "" if bg else "not ", why))
            if n not in ref.got:
                ctx.ok(kind == "Monostate", key + ":generic-target", "%s: %s introduces a generic width but refers to something [%s]" % (key, n.d["name"], why))
                continue
            t = ref.got[n]
            wk = {"node": "Some_Node", "param": "Parameter", "builtin": "Builtin_Function"}[t[0]]
            if not ctx.ok(kind == wk, key + ":target-kind", "%s: %s %s refers to a %s, the scope rules say %s [%s]" % (key, n.k, n.d["name"], kind, wk, why)):
                continue
            if t[0] == "builtin":
                ctx.ok(run.concrete(v) == E.bf["assert"], key + ":builtin", "%s: %s refers to another builtin function [%s]" % (key, n.d["name"], why))
            else:
                same = isinstance(v, (Ptr, ElemPtr)) and (v.cell if isinstance(v, Ptr) else run.elem(v.vec, v.idx)) is target_cell(t)
                ctx.ok(same, key + ":target", "%s: %s %s refers to another entity than the scope rules say [%s]" % (key, n.k, n.d["name"], why))
        for g in fs:
            isg = run.decide(run.field(mk.T.body(g.cell).v, "is_generic").v)
            ctx.ok(isg == (g in ref.generic), key + ":generic", "%s: function %s is %sgeneric [%s]" % (key, g.d["name"], "" if isg else "not ", why))
        return r

    n = 0
    for p in explore(P, entry, hooks, {"unroll": 400, "rec_limit": 12}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.kind != "return":
            if state["phase"] != "analysis":
                raise AnalysisBroken("%s: the rules end with %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: name lookup ends with %s (%s)" % (key, p.kind, p.why or p.exc))
    ctx.count("program shapes")
    ctx.count("paths", n)


def line_of(run, err, which):
    info = method(run, err, which)
    if isinstance(info, OptObj):
        if not run.decide(info.has):
            return None
        info = info.val.v
    pos = run.field(info, "pos").v
    return run.concrete(run.field(pos.val.v, "line").v) if run.decide(pos.has) else None


def cases(thorough):
    out = {}

    def case(key):
        def d(f):
            out[key] = f
            return f
        return d

    def fn(mk, *stmts, params=(), rt=None, requires=None, name="f"):
        return mk.nfn(name, list(params), rt or mk.int(), mk.blk(*stmts), requires)

    # ---- global declarations: all pairs and triples of kinds
    kinds = ("const", "function")
    import itertools
    for ks in list(itertools.product(kinds, repeat=2)) + list(itertools.product(kinds, repeat=3)):
        def f(mk, ks=ks):
            ds = [mk.nconst("d%d" % i, None, mk.lit()) if k == "const" else fn(mk, name="d%d" % i) for i, k in enumerate(ks)]
            return mk.program(*ds)
        out["declarations %s" % ", ".join(ks)] = f
    for where in ("initializer", "width", "static_assert"):
        for order in ("before", "after"):
            for k in kinds:
                def f(mk, where=where, order=order, k=k):
                    d = mk.nconst("d", None, mk.lit()) if k == "const" else fn(mk, name="d")
                    u = mk.use("u")
                    t = mk.static_assert(u) if where == "static_assert" else mk.nconst("e", mk.uint(u) if where == "width" else None, mk.lit() if where == "width" else u)
                    return mk.program(*((d, t) if order == "before" else (t, d)))
                out["use in a global %s %s a %s" % (where, order, k)] = f

    # ---- uses at every place of an expression
    def exprs(mk, u):
        return {
            "plain": lambda: u, "left operand": lambda: mk.bin("binary_plus", u, mk.lit()), "right operand": lambda: mk.bin("binary_plus", mk.lit(), u),
            "unary operand": lambda: mk.un("bitwise_not", u), "then of if": lambda: mk.iff(u, mk.lit(), mk.lit()), "condition of if": lambda: mk.iff(mk.lit(), u, mk.lit()),
            "else of if": lambda: mk.iff(mk.lit(), mk.lit(), u), "converted": lambda: mk.conv(u, mk.int()), "width of conversion": lambda: mk.conv(mk.lit(), mk.uint(u)),
            "argument 1": lambda: mk.ncall("c", u, mk.lit()), "argument 2": lambda: mk.ncall("c", mk.lit(), u), "nested": lambda: mk.un("unary_minus", mk.bin("logical_and", mk.lit(), mk.un("logical_not", u))),
        }
    expr_keys = ("plain", "left operand", "right operand", "unary operand", "then of if", "condition of if", "else of if", "converted", "width of conversion", "argument 1",
                 "argument 2", "nested")
    for ek in expr_keys:
        def f(mk, ek=ek):
            u = mk.use("u")
            return mk.program(fn(mk, mk.nlet("l", None, exprs(mk, u)[ek]()), params=[("p", mk.int())]))
        out["use as %s" % ek] = f

        def f(mk, ek=ek):
            return mk.program(mk.nconst("g", None, exprs(mk, mk.use("u"))[ek]()))
        out["use as %s of a constant" % ek] = f
    # ---- uses at every place of a statement
    def stmts(mk, u):
        e = lambda: mk.lit()
        b = lambda *s: mk.blk(*s)
        return {
            "let": lambda: mk.nlet("l", None, u), "let type": lambda: mk.nlet("l", mk.uint(u), None), "const": lambda: mk.nconst("l", None, u), "const type": lambda: mk.nconst("l", mk.uint(u), e()),
            "static_assert": lambda: mk.static_assert(u), "assigned": lambda: mk.nassign("p", u), "return": lambda: mk.control("return", u), "if condition": lambda: mk.if_(u, b()),
            "then": lambda: mk.if_(e(), b(u)), "else": lambda: mk.if_(e(), b(), b(u)), "while condition": lambda: mk.while_(u, b()), "while body": lambda: mk.while_(e(), b(u)),
            "block": lambda: b(u), "call statement": lambda: mk.ncall("p", u),
        }
    for sk in ("let", "let type", "const", "const type", "static_assert", "assigned", "return", "if condition", "then", "else", "while condition", "while body", "block", "call statement"):
        def f(mk, sk=sk):
            u = mk.use("u")
            F = mk.nfn("f", [("p", mk.int())], mk.int(), mk.blk(mk.nlet("v", None, mk.lit()), stmts(mk, u)[sk]()))
            return mk.program(F)
        out["use in %s" % sk] = f
    # ---- scopes
    def in_scope(mk, kind, *s):
        e = mk.lit
        b = mk.blk
        return {"block": lambda: b(*s), "then": lambda: mk.if_(e(), b(*s)), "else": lambda: mk.if_(e(), b(), b(*s)), "while": lambda: mk.while_(e(), b(*s)),
                "else if": lambda: mk.if_(e(), b(), mk.if_(e(), b(*s)))}[kind]()
    for sc in ("block", "then", "else", "while", "else if"):
        for dk in ("let", "const"):
            def D(mk, n, dk=dk):
                return mk.nlet(n, None, mk.lit()) if dk == "let" else mk.nconst(n, None, mk.lit())

            def f(mk, sc=sc, D=D):
                return mk.program(fn(mk, in_scope(mk, sc, D(mk, "a"), mk.use("u")), mk.use("v")))
            out["%s declared inside of %s, used inside and afterwards" % (dk, sc)] = f

            def f(mk, sc=sc, D=D):
                return mk.program(fn(mk, D(mk, "a"), in_scope(mk, sc, D(mk, "b"), mk.use("u"))))
            out["%s declared outside and inside of %s" % (dk, sc)] = f

            def f(mk, sc=sc, D=D):
                return mk.program(fn(mk, in_scope(mk, sc, D(mk, "a")), D(mk, "b"), mk.use("u")))
            out["%s declared inside of %s and afterwards" % (dk, sc)] = f
    for sc1, sc2 in (("then", "block"), ("while", "then"), ("block", "while")):
        def f(mk, sc1=sc1, sc2=sc2):
            return mk.program(fn(mk, in_scope(mk, sc1, mk.nlet("a", None, mk.lit())), in_scope(mk, sc2, mk.nlet("b", None, mk.lit()), mk.use("u"))))
        out["declarations in sibling scopes %s and %s" % (sc1, sc2)] = f

    @case("then and else are scopes of their own")
    def _(mk):
        return mk.program(fn(mk, mk.if_(mk.lit(), mk.blk(mk.nlet("a", None, mk.lit())), mk.blk(mk.nlet("b", None, mk.lit()), mk.use("u")))))

    @case("use before the declaration")
    def _(mk):
        return mk.program(fn(mk, mk.use("u"), mk.nlet("a", None, mk.lit())))

    @case("variable in its own initializer and type")
    def _(mk):
        return mk.program(fn(mk, mk.nlet("a", mk.uint(mk.use("u")), mk.use("v"))))

    @case("constant in its own initializer and type")
    def _(mk):
        return mk.program(fn(mk, mk.nconst("a", mk.uint(mk.use("u")), mk.use("v"))))

    @case("two functions")
    def _(mk):
        F = fn(mk, mk.nlet("a", None, mk.lit()), params=[("p", mk.int())])
        G = fn(mk, mk.nassign("u", mk.ncall("c")), params=[("q", mk.int())], name="g")
        return mk.program(F, G)

    @case("local declarations against global ones")
    def _(mk):
        return mk.program(mk.nconst("c", None, mk.lit()), fn(mk, mk.nlet("a", None, mk.lit())), fn(mk, name="g"))

    @case("calls and assignments")
    def _(mk):
        return mk.program(fn(mk, mk.nassign("u", mk.ncall("v", mk.use("w"))), params=[("p", mk.int())]), mk.nconst("c", None, mk.lit()))
    # ---- parameters
    for k in range(1, 4):
        def f(mk, k=k):
            return mk.program(fn(mk, mk.use("u"), params=[("p%d" % i, mk.int()) for i in range(k)]), mk.nconst("c", None, mk.lit()))
        out["%d parameters" % k] = f

    @case("generic parameter")
    def _(mk):
        return mk.program(fn(mk, mk.use("u"), params=[("p", mk.uint(mk.use("w")))]))

    @case("generic parameter, used in return type and requires-clause")
    def _(mk):
        return mk.program(fn(mk, params=[("p", mk.uint(mk.use("w")))], rt=mk.uint(mk.use("r")), requires=mk.use("s")))

    @case("two generic parameters")
    def _(mk):
        return mk.program(fn(mk, params=[("p", mk.uint(mk.use("w"))), ("q", mk.uint(mk.use("x")))]), mk.nconst("c", None, mk.lit()))

    @case("generic parameter and declarations")
    def _(mk):
        return mk.program(fn(mk, mk.nlet("a", None, mk.lit()), params=[("p", mk.uint(mk.use("w")))], name="f"), fn(mk, name="g"))

    @case("generic function after and before an ordinary one")
    def _(mk):
        return mk.program(fn(mk, params=[("p", mk.int())], name="f"), fn(mk, params=[("q", mk.uint(mk.use("w")))], name="g"), fn(mk, mk.use("u"), params=[("r", mk.int())], name="h"))

    @case("composite widths are not generic")
    def _(mk):
        return mk.program(fn(mk, params=[("p", mk.uint(mk.bin("binary_plus", mk.use("w"), mk.lit())))]))

    @case("undefined names in return type and requires-clause")
    def _(mk):
        return mk.program(fn(mk, params=[("p", mk.int())], rt=mk.uint(mk.use("r")), requires=mk.use("s")))
    return out


def check(ctx):
    P = ctx.p
    E = Env(P)
    ctx.rule("for every declaration and use site and every way in which their names coincide, lookup succeeds exactly when each used name is declared in an enclosing scope (or globally, or is "
             "built in) and no visible name is declared again; each use is then connected to that declaration, and otherwise the error names the conflict and both places")
    import os
    only = os.environ.get("BMSA_ONLY")
    for key, b in cases(ctx.thorough).items():
        if not only or only in key:
            run_case(ctx, E, key, b)
    if not only:
        ctx.need("program shapes", 80)
