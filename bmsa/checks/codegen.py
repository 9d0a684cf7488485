"""C06: the instructions generated for every construct of the language perform the construct.

Every node kind is analysed inside a function body, its children opaque: a child is assumed to append code that performs it (or to fail), which is
the very claim that is established for each kind. The emitted instructions are read back and followed as a graph; the sequence of observable actions
along every path is compared with an independent definition of the construct."""
import itertools
from ..ast import *  # noqa
from ..ast import Tree, NS, AST, vec_push, alternatives, pass_hook, mk_result, set_behind, ptr
from .operators import Env, VOID, BOOL, INT, UINT, BINARY, UNARY

BUDGET = 9


class Stop(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Retn(Exception):
    pass


def all_traces(run_fn):
    """{decision sequence: events} for a nondeterministic function of `decide`; bounded by BUDGET decisions"""
    out = {}
    todo = [()]
    while todo:
        pre = todo.pop()
        ds = []

        def decide(term, pre=pre, ds=ds):
            if len(ds) >= BUDGET:
                raise Stop()
            b = pre[len(ds)] if len(ds) < len(pre) else True
            ds.append(b)
            return b
        ev = run_fn(decide)
        out[tuple(ds)] = ev
        for i in range(len(ds) - 1, len(pre) - 1, -1):
            if ds[i]:
                todo.append(tuple(ds[:i]) + (False,))
    return out


# ------------------------------------------------------------------ reference semantics (structured)
class Ref:
    """executes a structured description of the construct; expressions yield terms"""

    def __init__(self, decide):
        self.decide = decide
        self.ev = []

    def branch(self, term):
        if term[0] == "const":
            return bool(term[2])
        b = self.decide(term)
        self.ev.append(("branch", term, b))
        return b

    def x(self, e):
        k = e[0]
        if k == "child":          # opaque expression
            return self.child(e[1])
        if k == "const":
            return e
        if k == "conv":
            t = self.x(e[2])
            self.ev.append(("conv", e[1], t))
            return ("conv", e[1], t)
        if k == "op":
            ts = tuple(self.x(a) for a in e[2])
            self.ev.append(("op", e[1], ts))
            return ("op", e[1], ts)
        if k == "load":
            self.ev.append(("load", e[1]))
            return ("val", e[1])
        if k in ("call", "builtin"):
            ts = tuple(self.x(a) for a in e[2])
            self.ev.append((k, e[1], ts))
            return (k, e[1], ts)
        if k == "ite":
            return self.x(e[2]) if self.branch(self.x(e[1])) else self.x(e[3])
        if k == "and":
            return self.x(e[2]) if self.branch(self.x(e[1])) else ("const", (BOOL, 0), 0)
        if k == "or":
            return ("const", (BOOL, 0), 1) if self.branch(self.x(e[1])) else self.x(e[2])
        raise AnalysisBroken("reference expression %s" % k)

    def child(self, c):
        for a in c.actions():
            if a[0] == "load":
                self.ev.append(("load", a[1]))
            elif a[0] == "maybe":        # leaves the loop or continues when the condition is false
                self.ev.append(("load", a[1]))
                if not self.branch(("val", a[1])):
                    raise {"break": Brk, "continue": Cnt}[a[2]]()
        return ("val", c.last())

    def s(self, st):
        k = st[0]
        if k == "seq":
            for x in st[1]:
                self.s(x)
        elif k == "expr":
            self.x(st[1])
        elif k == "child":
            self.child(st[1])
        elif k == "if":
            if self.branch(self.x(st[1])):
                self.s(st[2])
            elif st[3] is not None:
                self.s(st[3])
        elif k == "while":
            while self.branch(self.x(st[1])):
                try:
                    self.s(st[2])
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == "store":
            t = self.x(st[2])
            self.ev.append(("store", st[1], t))
        elif k == "return":
            t = self.x(st[1])
            self.ev.append(("return", (t,)))
            raise Retn()
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cnt()
        else:
            raise AnalysisBroken("reference statement %s" % k)


def ref_function(nparams, stmts, returns_void):
    def go(decide):
        r = Ref(decide)
        try:
            for i in reversed(range(nparams)):
                r.ev.append(("store", "param%d" % i, ("arg", i)))
            for s in stmts:
                r.s(s)
            if returns_void:
                r.ev.append(("return", (("const", (VOID, 0), 0),)))
            else:
                r.ev.append(("no-return",))
        except Retn:
            pass
        except Stop:
            pass
        return tuple(r.ev)
    return go


# ------------------------------------------------------------------ following emitted instructions
def follow(ins, nparams, arity):
    """instructions: decoded list; arity of called addresses/builtins"""
    def go(decide):
        ev = []
        st = [("arg", i) for i in range(nparams)]
        pc = 0
        steps = 0

        def pop():
            if not st:
                raise IndexError
            return st.pop()
        try:
            while True:
                steps += 1
                if steps > 4000:
                    ev.append(("runs on without a branch",))
                    break
                if pc == len(ins):
                    ev.append(("no-return",))
                    break
                if not 0 <= pc < len(ins):
                    ev.append(("leaves the code of the function", pc))
                    break
                i = ins[pc]
                k = i[0]
                pc += 1
                if k == "Load":
                    ev.append(("load", i[1]))
                    st.append(("val", i[1]))
                elif k == "Store":
                    ev.append(("store", i[1], pop()))
                elif k == "Push":
                    st.append(("const",) + i[1:])
                elif k == "Pop":
                    pop()
                elif k == "Relative_Jump":
                    pc += i[1]
                elif k == "Relative_Jump_If":
                    t = pop()
                    if t[0] == "const":
                        b = bool(t[2])
                    else:
                        b = decide(t)
                        ev.append(("branch", t, b))
                    if b == i[2]:
                        pc += i[1]
                elif k in ("Break", "Continue"):
                    ev.append(("symbolic jump left in the code",))
                    break
                elif k == "Return":
                    ev.append(("return", tuple(st)))
                    break
                elif k == "Convert":
                    t = pop()
                    ev.append(("conv", i[1], t))
                    st.append(("conv", i[1], t))
                elif k == "Unary_Operate":
                    t = (pop(),)
                    ev.append(("op", i[1], t))
                    st.append(("op", i[1], t))
                elif k == "Binary_Operate":
                    r = pop()
                    t = (pop(), r)
                    ev.append(("op", i[1], t))
                    st.append(("op", i[1], t))
                elif k in ("Call", "Builtin_Call"):
                    n = arity(k, i[1])
                    a = [pop() for _ in range(n)][::-1]
                    kk = "call" if k == "Call" else "builtin"
                    ev.append((kk, i[1], tuple(a)))
                    st.append((kk, i[1], tuple(a)))
        except Stop:
            pass
        except IndexError:
            ev.append(("pops from an empty stack",))
        return tuple(ev)
    return go


class Child:
    """an opaque child; `form` selects the shape of the code it contributes"""

    def __init__(self, name, form, fails=False, stmt=False, loop=False):
        self.name, self.form, self.fails, self.stmt, self.loop = name, form, fails, stmt, loop
        self.cell = None

    def marks(self):
        return ["%s.%d" % (self.name, i) for i in range(self.form + 1)]

    def last(self):
        return self.marks()[-1]

    def actions(self):
        m = self.marks()
        a = [("load", x) for x in m]
        if self.loop:
            a = []
            for x in m:
                a.append(("maybe", x + "?b", "break"))
                a.append(("load", x))
                a.append(("maybe", x + "?c", "continue"))
            a.append(("load", "%s.end" % self.name))
        return a


class Case:
    """one start state: builds the tree, gives the reference"""

    def __init__(self, ctx, E, key, build, vec=None):
        self.ctx, self.E, self.key, self.build = ctx, E, key, build


class B:
    """builder of one path"""

    def __init__(self, run, E, forms, failing):
        self.run, self.E, self.P = run, E, run.p
        self.T = Tree(run)
        self.children = {}
        self.forms, self.failing = forms, failing
        self.labels = {}
        self.cells = {}
        self.order = []
        self.arities = {}

    # -- values
    def ty(self, t):
        return self.E.mk_type(self.run, t)

    def val(self, t, known=None):
        v, _ = self.E.mk_val(self.run, t, "v", False)
        if known is None:
            return v
        cv = construct(self.run, NS + "Concrete_Value", ["Concrete_Type", None], [self.ty(t), known])
        return construct(self.run, NS + "Value", ["Concrete_Value"], [cv])

    def label(self, cell, name):
        self.labels[id(cell)] = name
        self.cells[name] = cell

    def mark(self, name):
        if name not in self.cells:
            c = Cell(0, name)
            self.label(c, name)
        return Ptr(self.cells[name])

    # -- nodes
    def node(self, kind, name, children=None, value=None):
        c = self.T.node(kind, name)
        if children is not None:
            self.T.set_children(c, children)
        if value is not None:
            self.T.set_const_value(c, value)
        return c

    def child(self, name, t=None, known=None, kind="Binary_Expression"):
        """opaque expression of type t"""
        c = self.T.node(kind, name)
        ch = Child(name, self.forms(name), name in self.failing)
        ch.cell = c
        self.children[id(c)] = ch
        self.order.append(ch)
        self.T.set_const_value(c, self.val(t, known))
        return c, ch

    def stmt(self, name, kind="If_Statement", loop=False):
        c = self.T.node(kind, name)
        ch = Child(name, self.forms(name), name in self.failing, True, loop)
        ch.cell = c
        self.children[id(c)] = ch
        self.order.append(ch)
        self.T.set_const_value(c, self.val((VOID, 0), 0))
        return c, ch

    def type_node(self, t, name):
        c = self.T.node("Type", name)
        o = self.T.body(c).v
        set_behind(self.run, o, "get_type", self.E.tt[t[0]])
        w = self.run.field(o, "concrete_width").v
        if t[0] == UINT:
            w.has, w.val = 1, Cell(t[1])
        else:
            w.has, w.val = 0, None
        self.T.set_const_value(c, self.val(t))
        self.T.set_children(c, [None])
        return c

    def lookup(self, node, alt, target):
        """sets node.lookup_result"""
        P = self.P
        o = self.run.field(self.T.body(node).v, "lookup_result")
        v = o.v
        for i, a in enumerate(v.alts):
            s = tname(P, a)
            if s.replace(" *", "").split("::")[-1] == alt:
                v.idx, v.cells, v.path = i, {i: Cell(target)}, None
                return
        raise AnalysisBroken("lookup alternative " + alt)

    def parameter(self, f, i):
        m = method(self.run, self.T.body(f), "get_parameters")
        return self.run.elem(m.vec if isinstance(m, SpanObj) else m, i)

    def function(self, name, params, rt, body=None):
        run = self.run
        c = self.T.node("Function", name)
        o = self.T.body(c).v
        m = method(run, Cell(o), "get_parameters")
        vec = m.vec if isinstance(m, SpanObj) else m
        vec.length = len(params)
        for i, t in enumerate(params):
            p = run.elem(vec, i)
            run.call_fn(self.meth(p.v, "set_type_node", 1), p, [Cell(Ptr(self.type_node(t, "%s.p%d.type" % (name, i))))], by_decl=True)
            if name == "F":
                self.label(p, "param%d" % i)
        method(run, Cell(o), "set_return_type_node", [Ptr(self.type_node(rt, name + ".rt"))])
        method(run, Cell(o), "set_requires_clause_node", [NULL])
        if body is not None:
            method(run, Cell(o), "set_body_node", [Ptr(body)])
        self.T.set_const_value(c, self.val((VOID, 0), 0))
        return c

    def meth(self, o, name, n):
        for r in [o.rec]:
            for m in self.P.records[r]["methods"]:
                if m["n"] == name and m["f"] in self.P.funcs and len(self.P.funcs[m["f"]]["p"]) == n:
                    return self.P.funcs[m["f"]]
        raise AnalysisBroken("%s::%s" % (o.rec, name))

    def block(self, name, children):
        return self.node("Block_Statement", name, children, self.val((VOID, 0), 0))


class Instructions:
    def __init__(self, P):
        self.P = P
        self.rec, self.alts, self.by = alternatives(P, NS + "Instruction")
        for k in ("Load", "Store", "Push", "Pop", "Relative_Jump", "Relative_Jump_If", "Break", "Continue", "Return", "Convert",
                  "Unary_Operate", "Binary_Operate", "Call", "Builtin_Call"):
            if k not in self.by:
                raise AnalysisBroken("instruction " + k)

    def make(self, run, kind, **fields):
        i = self.by[kind]
        o = Obj(tname(self.P, self.alts[i]), run.fresh_name("ins"))
        for k, v in fields.items():
            if self.P and run.field_decl(o.rec, k) is None:
                raise AnalysisBroken("field %s of %s" % (k, o.rec))
            o.fields[k] = Cell(v)
        return run.mk_variant(self.rec, self.alts, i, o)

    def decode(self, run, E, v, labels):
        i = run.split_value(v.idx)
        k = [n for n, x in self.by.items() if x == i][0]
        o = run.variant_cell(v, i)

        def f(n):
            return run.field(o.v, n).v

        def target(p):
            c = p.cell if isinstance(p, Ptr) else run.elem(p.vec, p.idx) if isinstance(p, ElemPtr) else None
            return labels.get(id(c), "?%r" % (p,))
        if k == "Load":
            return (k, target(f("source")))
        if k == "Store":
            return (k, target(f("target")))
        if k == "Push":
            cv = f("value")
            t = E.rd_type(run, run.field(cv, "type").v)
            return (k, t, run.split_value(run.field(cv, "int_value").v))
        if k == "Relative_Jump":
            return (k, sgn(run.split_value(f("offset"))))
        if k == "Relative_Jump_If":
            return (k, sgn(run.split_value(f("offset"))), bool(run.split_value(f("expected"))))
        if k == "Convert":
            return (k, E.rd_type(run, f("type")))
        if k in ("Unary_Operate", "Binary_Operate"):
            return (k, E.code(E.et, run, f("op")))
        if k == "Call":
            return (k, run.split_value(f("address")))
        if k == "Builtin_Call":
            return (k, E.code(E.bf, run, f("function")))
        return (k,)


def sgn(x):
    return x - (1 << 64) if isinstance(x, int) and x >= 1 << 63 else x


PREFIX = 2


def run_case(ctx, E, I, key, build, forms, failing):
    """explores one case; build(b) -> (params, return type, statement cells, reference statements)"""
    P = ctx.p
    gen = [f for k, l in P.by_q.items() if k.endswith("bms::generate_code") for f in l if len(f["p"]) == 2]
    if len(gen) != 1:
        raise AnalysisBroken("entry point of code generation")
    gen = gen[0]
    state = {}

    def opaque(run, c):
        return id(c) in state["b"].children

    def summary(run, c, e):
        b = state["b"]
        ch = b.children[id(c)]
        state["visited"].append(ch.name)
        if ch.fails:
            return mk_result(run, e["t"], state["err"](ch.name, run, e))
        for a in ch.actions():
            vec_push(run, state["out"], I.make(run, "Load", source=b.mark(a[1])))
            if a[0] == "maybe":
                vec_push(run, state["out"], I.make(run, "Relative_Jump_If", offset=1, expected=1))
                vec_push(run, state["out"], I.make(run, "Break" if a[2] == "break" else "Continue"))
            elif ch.stmt or a[1] != ch.last():
                vec_push(run, state["out"], I.make(run, "Pop"))
        return mk_result(run, e["t"])

    def err(name, run, e):
        nat, ta = run.p.native(run.p.strip(e["t"])["n"])
        o = run.fresh(ta[1][1], "error-of-" + name)
        state["errors"][name] = o
        return o

    def entry(run):
        b = B(run, E, forms, failing)
        state.update(b=b, visited=[], errors={}, err=err)
        params, rt, stmts, ref = build(b)
        body = b.block("body", stmts)
        f = b.function("F", params, rt, body)
        vt = P.strip(gen["p"][0]["t"])
        out = VecObj(vt["n"], P.native(vt["n"])[1][0][1], 0)
        state["out"] = out
        for i in range(PREFIX):
            vec_push(run, out, I.make(run, "Load", source=b.mark("prefix%d" % i)))
        state["ref"] = (params, rt, ref)
        return invoke(run, gen, [Cell(out), Ptr(f)])

    hooks = pass_hook(opaque, summary)
    for p in explore(P, entry, hooks, {"unroll": 200, "rec_limit": 10}, 3000, ctx.stats):
        run = p.run
        ctx.saw(run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        if p.kind != "return":
            ctx.ok(False, key + ":crash", "code generation ends with %s (%s)" % (p.kind, p.why or p.exc))
            continue
        b = state["b"]
        out = state["out"]
        n = run.concrete(out.length)
        if not isinstance(n, int):
            raise AnalysisBroken("length of generated code")
        ins = []
        for i in range(n):
            v = out.elems.get(i)
            if v is None or not isinstance(v.v, VariantObj):
                raise AnalysisBroken("instruction %d of %s: %r" % (i, key, v))
            ins.append(I.decode(run, E, v.v, b.labels))
        st, val = result_state(run, p.value)
        pre = [("Load", "prefix%d" % i) for i in range(PREFIX)]
        ctx.ok(ins[:PREFIX] == pre, key + ":prefix", "existing instructions were changed: %s" % (ins[:PREFIX],))
        if failing:
            ok = ctx.ok(st == "err", key + ":error", "a failing part (%s) does not make code generation fail" % ", ".join(failing))
            if ok:
                ctx.ok(len(ins) == PREFIX, key + ":rollback", "after the failure of %s, %d instructions are left behind" % (", ".join(failing), len(ins) - PREFIX))
                if "callee" not in failing:
                    got = [nm for nm, o in state["errors"].items() if same_obj(val, o)]
                    ctx.ok(bool(got), key + ":error-value", "the error of the failing part is replaced")
                else:
                    c = E.code(E.ac, run, method(run, val, "code"))
                    ctx.ok(c == "codegen_call_to_unanalyzed", key + ":error-code", "error code %s" % c)
            continue
        if not ctx.ok(st == "ok", key + ":fails", "code generation fails although every part succeeded"):
            continue
        body = ins[PREFIX:]
        params, rt, ref = state["ref"]

        def arity(k, x):
            a = b.arities.get((k, x))
            return 0 if a is None else a
        want = all_traces(ref_function(len(params), ref, rt[0] == VOID))
        got = all_traces(follow(body, len(params), arity))
        ctx.count("constructs")
        ctx.count("traces", len(want))
        diff = None
        for d in sorted(set(want) | set(got), key=lambda x: (len(x), x)):
            if want.get(d) != got.get(d):
                diff = d
                break
        if diff is not None:
            w, g = want.get(diff), got.get(diff)
            fall = w is not None and w and w[-1] == ("no-return",)
            msg = "for branch outcomes %s the code performs %s, the construct is %s; code: %s" % (
                list(diff), show_ev(g), show_ev(w), body)
            ctx.ok(False, key + (":fallthrough" if fall else ":trace"), msg[:1500])
        else:
            ctx.ok(not any(t and t[-1] == ("no-return",) for t in want.values()), "fallthrough:" + key,
                   "a non-Void function runs past its last instruction into the following code when %s" % key,
                   sample="%s: %d branch sequences, code %s" % (key, len(want), body[:12]))


def show_ev(ev):
    return "nothing" if ev is None else "[" + ", ".join(" ".join(map(str, e)) for e in ev) + "]"


def same_obj(a, o):
    """is a (a copy of) the symbolic error object o?"""
    return isinstance(a, Obj) and (a is o or (a.path is not None and a.path == o.path))


INTT = (INT, 0)
BOOLT = (BOOL, 0)
VOIDT = (VOID, 0)
U8, U16 = (UINT, 8), (UINT, 16)


def cases(E):
    """name -> build function"""
    out = {}

    def case(name, optional=()):
        def deco(f):
            out[name] = f
            return f
        return deco

    # ---- functions
    @case("function: parameters, statements in order, implicit return")
    def _(b):
        s1, c1 = b.stmt("s1")
        s2, c2 = b.stmt("s2", "While_Statement")
        return [INTT, BOOLT, U8], VOIDT, [s1, s2], [("child", c1), ("child", c2)]

    @case("function: empty body")
    def _(b):
        return [], VOIDT, [], []

    @case("function: one parameter, explicit return last")
    def _(b):
        s1, c1 = b.stmt("s1")
        r = control(b, "return", None, VOIDT, 0)
        return [U8], VOIDT, [s1, r], [("child", c1), ("return", ("const", VOIDT, 0))]

    @case("function: return between statements")
    def _(b):
        s1, c1 = b.stmt("s1")
        s2, c2 = b.stmt("s2")
        r = control(b, "return", None, VOIDT, 0)
        return [], VOIDT, [s1, r, s2], [("child", c1), ("return", ("const", VOIDT, 0))]

    @case("function: value is not returned on every path")
    def _(b):
        s1, c1 = b.stmt("s1")
        return [], U8, [s1], [("child", c1)]

    @case("block inside a block")
    def _(b):
        s1, c1 = b.stmt("s1")
        s2, c2 = b.stmt("s2")
        s3, c3 = b.stmt("s3")
        blk = b.block("inner", [s1, s2])
        return [], VOIDT, [blk, s3], [("child", c1), ("child", c2), ("child", c3)]

    def control(b, what, expr, t, known):
        c = b.node("Control_Statement", "ctl-" + what, [expr], b.val(t, known))
        en = b.P.enum("ast::Control_Statement_Type")
        set_behind(b.run, b.T.body(c).v, "get_type", en[what + "_"])
        return c

    for kn, et, rt in ((None, U8, U8), (None, INTT, U16), (None, BOOLT, BOOLT), (None, INTT, INTT), (7, U8, U8), (1, BOOLT, BOOLT), (5, INTT, U8)):
        def f(b, kn=kn, et=et, rt=rt):
            x, cx = b.child("x", et, None if kn is None else kn)
            r = control(b, "return", x, rt, kn)
            if kn is not None:
                return [], rt, [r], [("return", ("const", rt, kn))]
            return [], rt, [r], [("return", ("child", cx) if et == rt else ("conv", rt, ("child", cx)))]
        out["return %s as %s%s" % (E_show(et), E_show(rt), "" if kn is None else " (constant)")] = f

    # ---- if / while
    for els in (None, "Block_Statement", "If_Statement"):
        def f(b, els=els):
            c, cc = b.child("cond", BOOLT)
            t, ct = b.stmt("then", "Block_Statement")
            e, ce = b.stmt("else", els) if els else (None, None)
            s, cs = b.stmt("after")
            n = b.node("If_Statement", "if", [c, t, e], b.val(VOIDT, 0))
            return [], VOIDT, [n, s], [("if", ("child", cc), ("child", ct), ("child", ce) if els else None), ("child", cs)]
        out["if statement, else: %s" % els] = f

    @case("while statement")
    def _(b):
        c, cc = b.child("cond", BOOLT)
        t, ct = b.stmt("body-of-loop", "Block_Statement", loop=True)
        s, cs = b.stmt("after")
        n = b.node("While_Statement", "while", [c, t], b.val(VOIDT, 0))
        return [], VOIDT, [n, s], [("while", ("child", cc), ("child", ct)), ("child", cs)]

    @case("while statement, nested")
    def _(b):
        c, cc = b.child("cond", BOOLT)
        d, cd = b.child("cond2", BOOLT)
        s1, c1 = b.stmt("s1", loop=True)
        s2, c2 = b.stmt("s2")
        s3, c3 = b.stmt("s3")
        br = control(b, "break", None, VOIDT, 0)
        inner = b.node("While_Statement", "inner", [d, b.block("ib", [s1, br])], b.val(VOIDT, 0))
        outer = b.node("While_Statement", "outer", [c, b.block("ob", [inner, s2])], b.val(VOIDT, 0))
        return [], VOIDT, [outer, s3], [
            ("while", ("child", cc), ("seq", [("while", ("child", cd), ("seq", [("child", c1), ("break",)])), ("child", c2)])), ("child", c3)]

    for what in ("break", "continue"):
        def f(b, what=what):
            c, cc = b.child("cond", BOOLT)
            d, cd = b.child("cond2", BOOLT)
            s1, c1 = b.stmt("s1")
            s2, c2 = b.stmt("s2")
            s3, c3 = b.stmt("after")
            ctl = control(b, what, None, VOIDT, 0)
            i = b.node("If_Statement", "if", [d, b.block("tb", [s1, ctl]), None], b.val(VOIDT, 0))
            n = b.node("While_Statement", "while", [c, b.block("wb", [i, s2])], b.val(VOIDT, 0))
            return [], VOIDT, [n, s3], [("while", ("child", cc), ("seq", [
                ("if", ("child", cd), ("seq", [("child", c1), (what,)]), None), ("child", c2)])), ("child", c3)]
        out["%s inside an if inside a while" % what] = f

    # ---- variables
    def let(b, name, t, init):
        n = b.node("Let", name, [None, init], b.val(t))
        b.label(n, name)
        return n

    for et, vt in ((U8, U8), (INTT, U16), (INTT, INTT), (BOOLT, BOOLT)):
        def f(b, et=et, vt=vt):
            x, cx = b.child("x", et)
            s, cs = b.stmt("after")
            n = let(b, "variable", vt, x)
            e = ("child", cx) if et == vt else ("conv", vt, ("child", cx))
            return [], VOIDT, [n, s], [("store", "variable", e), ("child", cs)]
        out["let of %s from %s" % (E_show(vt), E_show(et))] = f

    @case("let without initializer")
    def _(b):
        s, cs = b.stmt("after")
        return [], VOIDT, [let(b, "variable", U8, None), s], [("child", cs)]

    for et, vt in ((U8, U8), (INTT, U16), (BOOLT, BOOLT)):
        for to in ("variable", "parameter"):
            def f(b, et=et, vt=vt, to=to):
                x, cx = b.child("x", et)
                n = b.node("Assignment", "assign", [x], b.val(vt))
                if to == "variable":
                    v = let(b, "variable", vt, None)
                    b.lookup(n, "Some_Node", Ptr(v))
                    tgt = "variable"
                else:
                    g = b.function("G", [vt], VOIDT)
                    p = b.parameter(g, 0)
                    b.label(p, "gparam")
                    b.lookup(n, "Parameter", Ptr(p))
                    tgt = "gparam"
                e = ("child", cx) if et == vt else ("conv", vt, ("child", cx))
                return [], VOIDT, [n], [("store", tgt, e)]
            out["assignment of %s to a %s of %s" % (E_show(et), to, E_show(vt))] = f

    @case("constants and static assertions emit nothing")
    def _(b):
        x, cx = b.child("x", INTT, 4)
        y, cy = b.child("y", BOOLT, 1)
        s, cs = b.stmt("after")
        k = b.node("Const", "constant", [None, x], b.val(INTT, 4))
        a = b.node("Static_Assert", "assertion", [y], b.val(VOIDT, 0))
        return [], VOIDT, [k, a, s], [("child", cs)]

    # ---- expressions, observed through an assignment
    def observe(b, e, t, ref):
        v = let(b, "sink", t, None)
        n = b.node("Assignment", "assign", [e], b.val(t))
        b.lookup(n, "Some_Node", Ptr(v))
        s, cs = b.stmt("after")
        return [], VOIDT, [n, s], [("store", "sink", ref), ("child", cs)]

    def expr(name, build):
        def f(b):
            e, t, ref = build(b)
            return observe(b, e, t, ref)
        out[name] = f

    def known_expr(kind, children, setup=None):
        def build(b):
            cs = [b.child("x%d" % i, INTT, 1)[0] for i in range(children)]
            n = b.node(kind, "expr", cs, b.val(U8, 42))
            if kind == "Function_Call_Expression":
                set_behind(b.run, b.T.body(n).v, "is_statement", 0)
            return n, U8, ("const", U8, 42)
        expr("%s with a constant value" % kind, build)

    known_expr("Conversion_Expression", 2)
    known_expr("If_Expression", 3)
    known_expr("Binary_Expression", 2)
    known_expr("Prefix_Expression", 1)
    known_expr("Function_Call_Expression", 2)
    known_expr("Id_Expression", 0)
    known_expr("Literal", 0)

    for frm, to in ((INTT, U8), (U8, U8), (INTT, INTT)):
        def build(b, frm=frm, to=to):
            x, cx = b.child("x", frm)
            n = b.node("Conversion_Expression", "expr", [x, b.type_node(to, "to")], b.val(to))
            return n, to, ("conv", to, ("child", cx))
        expr("conversion of %s to %s" % (E_show(frm), E_show(to)), build)

    for lt, rt, t in ((U8, U8, U8), (INTT, U8, U8), (U8, INTT, U8), (INTT, INTT, INTT), (BOOLT, BOOLT, BOOLT)):
        for cond in ("unknown", "known"):
            def build(b, lt=lt, rt=rt, t=t, cond=cond):
                l, cl = b.child("left", lt)
                r, cr = b.child("right", rt)
                c, cc = b.child("cond", BOOLT)
                n = b.node("If_Expression", "expr", [l, c, r], b.val(t))
                return n, t, ("ite", ("child", cc), conv(lt, t, ("child", cl)), conv(rt, t, ("child", cr)))
            expr("if expression of %s and %s" % (E_show(lt), E_show(rt)), build)

    def conv(frm, to, e):
        return e if frm == to else ("conv", to, e)

    # ---- operators through the nodes' constructors
    for tok, op in BIN_TOKENS:
        def build(b, tok=tok, op=op):
            t = BOOLT if op in ("logical_and", "logical_or") else U8
            res = BOOLT if op in ("logical_and", "logical_or", "equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal") else U8
            l, cl = b.child("left", t)
            r, cr = b.child("right", t)
            n = operator_node(b, "Binary_Expression", tok)
            b.T.set_children(n, [l, r])
            b.T.set_const_value(n, b.val(res))
            if op == "logical_and":
                ref = ("and", ("child", cl), ("child", cr))
            elif op == "logical_or":
                ref = ("or", ("child", cl), ("child", cr))
            else:
                ref = ("op", op, [("child", cl), ("child", cr)])
            return n, res, ref
        expr("operator %s" % op, build)
    for tok, op in UN_TOKENS:
        def build(b, tok=tok, op=op):
            t = BOOLT if op == "logical_not" else U8
            x, cx = b.child("x", t)
            n = operator_node(b, "Prefix_Expression", tok)
            b.T.set_children(n, [x])
            b.T.set_const_value(n, b.val(t))
            return n, t, ("op", op, [("child", cx)])
        expr("operator %s" % op, build)

    # ---- names
    def build(b):
        n = b.node("Id_Expression", "expr", None, b.val(U8))
        v = let(b, "variable", U8, None)
        b.lookup(n, "Some_Node", Ptr(v))
        return n, U8, ("load", "variable")
    expr("use of a variable", build)

    def build(b):
        n = b.node("Id_Expression", "expr", None, b.val(U8))
        g = b.function("G", [INTT, U8], VOIDT)
        p = b.parameter(g, 1)
        b.label(p, "gparam")
        b.lookup(n, "Parameter", Ptr(p))
        return n, U8, ("load", "gparam")
    expr("use of a parameter", build)

    # ---- calls
    def call(b, args, params, rt, stmt, addr=1234):
        cs, refs = [], []
        for i, (a, p) in enumerate(zip(args, params)):
            x, cx = b.child("arg%d" % i, a)
            cs.append(x)
            refs.append(conv(a, p, ("child", cx)))
        g = b.function("G", params, rt)
        b.run.field(b.T.body(g).v, "vm_address").v = addr
        n = b.node("Function_Call_Expression", "call", cs, b.val(rt))
        set_behind(b.run, b.T.body(n).v, "is_statement", 1 if stmt else 0)
        b.lookup(n, "Some_Node", Ptr(g))
        b.arities[("Call", addr)] = len(params)
        return n, ("call", addr, refs)

    for args, params in (((), ()), ((U8,), (U8,)), ((INTT, U8, INTT), (U8, U8, INTT)), ((BOOLT, INTT), (BOOLT, U16)), ((U8, U8), (U8, U8))):
        for stmt in (False, True):
            nm = "call of a function(%s) with (%s)" % (", ".join(map(E_show, params)), ", ".join(map(E_show, args)))
            if stmt:
                def f(b, args=args, params=params):
                    n, ref = call(b, args, params, U8, True)
                    s, cs = b.stmt("after")
                    r = control(b, "return", None, VOIDT, 0)
                    return [], VOIDT, [n, s], [("expr", ref), ("child", cs)]
                out[nm + " as a statement"] = f
            else:
                def build(b, args=args, params=params):
                    n, ref = call(b, args, params, U8, False)
                    return n, U8, ref
                expr(nm, build)

    def f(b):
        n, ref = call(b, (U8,), (U8,), VOIDT, True)
        s, cs = b.stmt("after")
        return [], VOIDT, [n, s], [("expr", ref), ("child", cs)]
    out["call of a Void function as a statement"] = f

    @case("call statement with a constant value emits nothing")
    def _(b):
        x, cx = b.child("x", U8, 1)
        n = b.node("Function_Call_Expression", "call", [x], b.val(U8, 3))
        set_behind(b.run, b.T.body(n).v, "is_statement", 1)
        s, cs = b.stmt("after")
        return [], VOIDT, [n, s], [("child", cs)]

    @case("call of a builtin function")
    def _(b):
        x, cx = b.child("x", BOOLT)
        n = b.node("Function_Call_Expression", "call", [x], b.val(VOIDT))
        set_behind(b.run, b.T.body(n).v, "is_statement", 1)
        b.lookup(n, "Builtin_Function", b.E.bf["assert"])
        b.arities[("Builtin_Call", "assert")] = 1
        s, cs = b.stmt("after")
        return [], VOIDT, [n, s], [("expr", ("builtin", "assert", [("child", cx)])), ("child", cs)]

    @case("!call of a function without code")
    def _(b):
        n, ref = call(b, (U8, INTT), (U8, U8), U8, True, addr=(1 << 64) - 1)
        s, cs = b.stmt("before")
        return [], VOIDT, [s, n], []

    @case("!call of a function which was not analysed")
    def _(b):
        n, ref = call(b, (U8,), (U8,), U8, True)
        g = b.run.field(b.T.body(n).v, "lookup_result").v
        callee = [c.v.cell for c in g.cells.values()][0]
        b.T.set_const_value(callee, None)
        return [], VOIDT, [n], []
    return out


BIN_TOKENS = [("plus", "binary_plus"), ("minus", "binary_minus"), ("multiplication", "multiplication"), ("division", "division"),
              ("remainder", "remainder"), ("shift_left", "shift_left"), ("shift_right", "shift_right"), ("bitwise_and", "bitwise_and"),
              ("bitwise_or", "bitwise_or"), ("bitwise_xor", "bitwise_xor"), ("logical_and", "logical_and"), ("logical_or", "logical_or"),
              ("equals", "equals"), ("not_equals", "not_equals"), ("less_than", "less_than"), ("greater_than", "greater_than"),
              ("less_or_equal", "less_or_equal"), ("greater_or_equal", "greater_or_equal")]
UN_TOKENS = [("plus", "unary_plus"), ("minus", "unary_minus"), ("bitwise_not", "bitwise_not"), ("logical_not", "logical_not")]


def operator_node(b, kind, tok):
    """node built by the repository's own constructor from a parsed expression with the given operator token"""
    P, run = b.P, b.run
    tt = P.enum("bms::Token_Type")
    if tok not in tt:
        raise AnalysisBroken("token %s" % tok)
    rec = P.record(AST + kind)
    parsed = Obj(P.record(NS + "astp::" + kind), run.fresh_name("parsed"))
    ops_ = [f for f in run.all_fields(parsed.rec) if tname(P, f["t"]).endswith("::Token_Type")]
    if len(ops_) != 1:
        raise AnalysisBroken("operator token of parsed " + kind)
    run.field(parsed, ops_[0]["n"]).v = tt[tok]
    parent = b.T.node("Block_Statement", run.fresh_name("parent"))
    o = construct(run, rec, [None, None, None], [parent, Cell(parsed), run.fresh([f for f in P.funcs.values() if f.get("ctor") and P.types[f["rec"]]["n"] == rec and len(f["p"]) == 3][0]["p"][2]["t"], "file")])
    c = b.T.node(kind, run.fresh_name("expr"))
    c.v.cells[c.v.idx] = Cell(o)
    return c


def E_show(t):
    return "%s(%s)" % t if t[0] == UINT else t[0]


def check(ctx):
    P = ctx.p
    E = Env(P)
    I = Instructions(P)
    ctx.rule("for every node kind, the instructions emitted for a node whose children are opaque perform exactly the actions of the construct, in order, "
             "on every sequence of branch outcomes (at most %d branches), whatever the number of instructions of the children" % BUDGET)
    ctx.rule("if a child fails, the same error is returned and no instruction is left behind")
    forms = [lambda n: 0, lambda n: 1 + (sum(map(ord, n)) % 3)]
    if ctx.thorough:
        forms += [lambda n: 4 if n[0] in "ltc" else 0, lambda n: 5 - (sum(map(ord, n)) % 4)]
    import os, sys, time
    for name, build in cases(E).items():
        if os.environ.get("BMSA_PROGRESS"):
            sys.stderr.write("%.1f %s\n" % (time.time() % 1000, name))
        if name.startswith("!"):
            run_case(ctx, E, I, name[1:], build, forms[0], ("callee",))
            continue
        for fm in forms:
            run_case(ctx, E, I, name, build, fm, ())
        # every opaque child failing in turn
        names = child_names(ctx, E, build)
        for n in names:
            visited = n
            run_case_fail(ctx, E, I, name, build, forms[1], n)
    ctx.need("constructs", 60)


def child_names(ctx, E, build):
    got = []

    def entry(run):
        b = B(run, E, lambda n: 0, ())
        build(b)
        got[:] = [c.name for c in b.order]
        return None
    for p in explore(ctx.p, entry, {}, {}, 50):
        break
    return got


def run_case_fail(ctx, E, I, key, build, forms, name):
    """child `name` fails; only meaningful when the construct generates code for it"""
    # a child whose code is never requested (constants) cannot fail
    if "constant" in key or key.startswith("call statement with a constant") or "between statements" in key:
        return
    run_case(ctx, E, I, key + " [%s fails]" % name, build, forms, (name,))
