"""C07: semantic analysis accepts exactly the well-formed constructs, gives every node its type and value and names the violated rule.

Trees of every node kind are analysed through the public entry point. Their leaves are abstract: known values are unconstrained values of their type,
variables and parameters are unknown, and there are leaves which are ill-formed or whose evaluation fails. An independent definition of the rules,
working on the same tree, yields the expected outcome; typing and evaluation of single operators is delegated to the functions decided by C01-C04."""
from ..ast import *  # noqa
from ..ast import Tree, NS, AST, set_behind, ptr, mk_result
from ..lib import Ext, Sym, is_sym, ops, explain, result_state, explore
from .operators import Env, VOID, BOOL, INT, UINT
from .codegen import B, operator_node, BIN_TOKENS, UN_TOKENS, E_show

INTT, BOOLT, VOIDT, U8, U16 = (INT, 0), (BOOL, 0), (VOID, 0), (UINT, 8), (UINT, 16)
TOKEN = {op: t for t, op in BIN_TOKENS}
UTOKEN = {op: t for t, op in UN_TOKENS}


class X:
    """a node of the tree with what the reference needs to know about it"""

    def __init__(self, k, cell, kids=(), **d):
        self.k, self.cell, self.kids, self.d = k, cell, kids, d
        self.line = None

    def walk(self):
        yield self
        for k in self.kids:
            if k is not None:
                yield from k.walk()


class Err(Exception):
    """expected error: code (evaluation errors as ('evaluation_error', code)) at one of the nodes"""

    def __init__(self, code, *nodes):
        self.code, self.nodes = code, nodes


class Maker(B):
    def __init__(self, run, E):
        B.__init__(self, run, E, lambda n: 0, ())
        self.line = 0
        self.bylines = {}
        self.nval = 0
        self.known_values = {}

    def at(self, cell):
        """gives a node a position of its own"""
        run = self.run
        self.line += 1
        o = self.T.body(cell).v
        set_position(run, o, self.line)
        self.bylines[self.line] = cell
        return self.line

    def x(self, k, kind, name, kids=(), children=None, **d):
        c = self.T.node(kind, name + "#%d" % (self.line + 1))
        return self.wrap(X(k, c, kids, **d), children)

    def wrap(self, x, children=None):
        c = x.cell
        if children is not None:
            self.T.set_children(c, [None if k is None else k.cell for k in children])
        self.T.set_const_value(c, None)
        x.line = self.at(c)
        for k in x.kids:
            if k is not None:
                self.T.set_parent(k.cell, c)
        return x

    # ---- leaves
    def sym(self, t):
        self.nval += 1
        v, s = self.E.mk_val(self.run, t, "v%d" % self.nval, True)
        return v

    def known(self, t, num=None):
        return self.const(t, True, num)

    def let_node(self, t, analysed=True):
        n = self.T.node("Let", "variable")
        self.at(n)
        self.T.set_const_value(n, self.val(t) if analysed else None)
        return n

    def var(self, t, analysed=True):
        x = self.x("let" if analysed else "undefined-let", "Id_Expression", "use", t=t)
        self.lookup(x.cell, "Some_Node", Ptr(self.let_node(t, analysed)))
        return x

    def const(self, t, analysed=True, num=None):
        n = self.T.node("Const", "constant")
        self.at(n)
        v = None if not analysed else self.sym(t) if num is None else self.val(t, num)
        self.T.set_const_value(n, v)
        x = self.x("known" if analysed else "undefined-const", "Id_Expression", "use", value=v)
        self.lookup(x.cell, "Some_Node", Ptr(n))
        return x

    def param_use(self, t):
        g = self.function("Fp%d" % self.line, [t], VOIDT)
        x = self.x("param", "Id_Expression", "use", t=t)
        self.lookup(x.cell, "Parameter", Ptr(self.parameter(g, 0)))
        return x

    def bad(self):
        x = self.x("bad", "Id_Expression", "bad")
        self.lookup(x.cell, "Builtin_Function", self.E.bf["assert"])
        return x

    def div0(self):
        """well-formed, but has no value"""
        return self.bin("division", self.known(INTT, 1), self.known(INTT, 0))

    def literal(self, tok, text):
        x = self.x("literal", "Literal", "literal")
        o = self.T.body(x.cell).v
        set_behind(self.run, o, "get_type", self.P.enum("bms::Token_Type")[tok])
        set_behind(self.run, o, "get_literal", StrObj(None, text))
        return x

    # ---- expressions
    def bin(self, op, l, r):
        c = operator_node(self, "Binary_Expression", TOKEN[op])
        return self.wrap(X("bin", c, (l, r), op=op), (l, r))

    def un(self, op, e):
        c = operator_node(self, "Prefix_Expression", UTOKEN[op])
        return self.wrap(X("un", c, (e,), op=op), (e,))

    def iff(self, l, c, r):
        return self.x("if", "If_Expression", "if", (l, c, r), (l, c, r))

    def conv(self, e, t):
        ty = t if isinstance(t, X) else self.type(t)
        return self.x("conv", "Conversion_Expression", "as", (e, ty), (e, ty))

    def type(self, t, width=None):
        """type node which is yet to be analysed; width: expression"""
        if t[0] == UINT and width is None:
            width = self.known(INTT, t[1])
        x = self.x("type", "Type", "type", (width,), [width], t=t)
        o = self.T.body(x.cell).v
        set_behind(self.run, o, "get_type", self.E.tt[t[0]])
        w = self.run.field(o, "concrete_width").v
        w.has, w.val = 0, None
        return x

    def call(self, target, args, statement=False):
        """target: X of a function, ('builtin', name), or X of another declaration"""
        x = self.x("call", "Function_Call_Expression", "call", tuple(args), list(args), target=target)
        set_behind(self.run, self.T.body(x.cell).v, "is_statement", 1 if statement else 0)
        if isinstance(target, X):
            self.lookup(x.cell, "Some_Node", Ptr(target.cell))
        elif target[0] == "builtin":
            self.lookup(x.cell, "Builtin_Function", self.E.bf[target[1]])
        elif target[0] == "parameter":
            g = self.function("Fq%d" % self.line, [INTT], VOIDT)
            self.lookup(x.cell, "Parameter", Ptr(self.parameter(g, 0)))
        return x

    # ---- statements and declarations
    def let(self, t, init):
        ty = None if t is None else t if isinstance(t, X) else self.type(t)
        return self.x("letdecl", "Let", "let", (ty, init), (ty, init))

    def constdecl(self, t, init):
        ty = None if t is None else t if isinstance(t, X) else self.type(t)
        return self.x("constdecl", "Const", "const", (ty, init), (ty, init))

    def static_assert(self, e):
        return self.x("assert", "Static_Assert", "static_assert", (e,), (e,))

    def if_(self, c, t, e=None):
        return self.x("ifs", "If_Statement", "ifs", (c, t, e), (c, t, e))

    def while_(self, c, b):
        return self.x("while", "While_Statement", "while", (c, b), (c, b))

    def control(self, what, e=None):
        x = self.x("control", "Control_Statement", what, (e,), (e,), what=what)
        en = self.P.enum("ast::Control_Statement_Type")
        set_behind(self.run, self.T.body(x.cell).v, "get_type", en[what + "_"])
        return x

    def assign(self, target, e):
        """target: ('let', t) ('const', t) ('function',) ('builtin',) ('parameter',) ('generic',) or X of a declaration"""
        x = self.x("assign", "Assignment", "assign", (e,), (e,), target=target)
        if isinstance(target, X):
            self.lookup(x.cell, "Some_Node", Ptr(target.cell))
        elif target[0] == "let":
            self.lookup(x.cell, "Some_Node", Ptr(self.let_node(target[1])))
        elif target[0] == "const":
            n = self.T.node("Const", "constant")
            self.at(n)
            self.T.set_const_value(n, self.sym(target[1]))
            self.lookup(x.cell, "Some_Node", Ptr(n))
        elif target[0] == "function":
            f = self.function("Fa%d" % self.line, [], VOIDT)
            self.at(f)
            self.lookup(x.cell, "Some_Node", Ptr(f))
        elif target[0] == "builtin":
            self.lookup(x.cell, "Builtin_Function", self.E.bf["assert"])
        elif target[0] == "parameter":
            g = self.function("Fq%d" % self.line, [INTT], VOIDT)
            self.lookup(x.cell, "Parameter", Ptr(self.parameter(g, 0)))
        return x

    def blk(self, *stmts):
        return self.x("block", "Block_Statement", "block", stmts, list(stmts))

    def fn(self, name, params, rt, body, requires=None):
        """params: list of types or X"""
        run = self.run
        c = self.T.node("Function", name)
        o = self.T.body(c).v
        m = method(run, Cell(o), "get_parameters")
        vec = m.vec if isinstance(m, SpanObj) else m
        vec.length = len(params)
        ps = [p if isinstance(p, X) else self.type(p) for p in params]
        for i, t in enumerate(ps):
            p = run.elem(vec, i)
            run.call_fn(self.meth(p.v, "set_type_node", 1), p, [Cell(ptr(t.cell))], by_decl=True)
        r = rt if isinstance(rt, X) else self.type(rt)
        method(run, Cell(o), "set_return_type_node", [Ptr(r.cell)])
        method(run, Cell(o), "set_requires_clause_node", [ptr(requires.cell) if requires else NULL])
        method(run, Cell(o), "set_body_node", [Ptr(body.cell)])
        for n, v in (("is_generic", 0), ("vm_address", (1 << 64) - 1), ("analysis_so_far", self.P.enum("Analysis_Level")["unanalyzed"])):
            run.field(o, n).v = v
        inst = run.field(o, "instances").v
        inst.length, inst.elems, inst.path = 0, {}, None
        x = X("function", c, tuple(ps) + (r, requires, body), params=ps, rt=r, requires=requires, body=body, cells=[run.elem(vec, i) for i in range(len(ps))])
        return self.wrap(x)

    def use_param(self, f, i):
        """expression naming parameter i of a function which is built already"""
        x = self.x("fparam", "Id_Expression", "use", f=f, i=i)
        self.lookup(x.cell, "Parameter", Ptr(f.d["cells"][i]))
        return x

    def program(self, *decls):
        x = self.x("program", "Program", "program", decls, list(decls))
        self.T.set_parent(x.cell, None)
        return x


def set_position(run, o, line):
    """gives a node a source position with the given line"""
    m = method(run, Cell(o), "get_position")
    names = {f["n"] for f in run.all_fields(o.rec) if run.p.strip(f["t"]).get("n") == m.rec}
    if len(names) != 1:
        raise AnalysisBroken("position of %s" % o.rec)
    span = run.fresh(m.vt, "pos%d" % line)
    run.field(span, "line").v = line
    v = run.field(o, names.pop()).v
    v.has, v.val = 1, Cell(span)


# ------------------------------------------------------------------------------------------------ the rules
class Ref:
    """the documented rules; records the expected value of every node in x.exp"""

    def __init__(self, run, E):
        self.run, self.E = run, E
        self.analysed = set()
        self.active = []

    # -- helpers
    def unknown(self, t):
        f = fn_by(self.E.P, "bms::Value::unknown_of_type", ["Concrete_Type"])
        return invoke(self.run, f, [self.ty(t)])

    def ty(self, t):
        return self.E.mk_type(self.run, t) if isinstance(t, tuple) else t

    def typ_of(self, v):
        return self.E.rd_type(self.run, method(self.run, v, "get_type"))

    def raw_type(self, v):
        return method(self.run, v, "get_type")

    def is_known(self, v):
        return self.run.decide(method(self.run, v, "is_known"))

    def same_type(self, a, b):
        (ka, wa), (kb, wb) = a, b
        return ka == kb and (ka != UINT or self.run.decide(ops.binary("==", wa, wb, 32, True)))

    def convertible(self, a, b):
        return self.same_type(a, b) or (a[0] == INT and b[0] == UINT)

    def call(self, f, args):
        st, v = result_state(self.run, invoke(self.run, f, args))
        return st == "ok", v

    def code(self, v):
        return self.E.code(self.E.ec, self.run, v)

    def acode(self, v):
        return self.E.code(self.E.ac, self.run, v)

    def done(self, x, v):
        x.exp = v
        return v

    def evaluated(self, x, const, result, t, *nodes):
        """the value of an evaluation that may fail: an error in constant expressions, otherwise no value"""
        ok, v = result
        if ok:
            return self.done(x, v)
        if const:
            raise Err(("evaluation_error", self.code(v)), x, *nodes)
        return self.done(x, self.unknown(t))

    # -- expressions
    def expr(self, x, const, env=None):
        k, E = x.k, self.E
        if k == "known":
            return self.done(x, x.d["value"])
        if k in ("let", "undefined-let"):
            if const:
                raise Err("let_variable_in_constant_expression", x)
            if k == "undefined-let":
                raise Err("use_of_undefined_variable", x)
            return self.done(x, self.unknown(x.d["t"]))
        if k == "uselet":
            if const:
                raise Err("let_variable_in_constant_expression", x)
            return self.done(x, self.unknown(self.typ_of(x.d["decl"].exp)))
        if k == "useconst":
            if not hasattr(x.d["decl"], "exp"):
                raise Err("use_of_undefined_constant", x)
            return self.done(x, x.d["decl"].exp)
        if k == "undefined-const":
            raise Err("use_of_undefined_constant", x)
        if k == "fparam" and env is not None:
            return env[x.d["i"]]
        if k in ("param", "fparam"):
            if const:
                raise Err("parameter_in_constant_expression", x)
            return self.done(x, self.unknown(x.d["t"] if k == "param" else x.d["f"].d["params"][x.d["i"]].d["t"]))
        if k in ("bad", "usefn"):
            raise Err("function_in_expression", x)
        if k == "un":
            v = self.expr(x.kids[0], const, env)
            op = E.et[x.d["op"]]
            ok, t = self.call(E.chk_un, [op, self.raw_type(v)])
            if not ok:
                raise Err(self.acode(t), x)
            return self.evaluated(x, const, self.call(E.vv_un, [op, v]), t)
        if k == "bin":
            l, r = x.kids
            op = E.et[x.d["op"]]
            lv = self.expr(l, const, env)
            rconst, short = const, False
            if const and x.d["op"] in ("logical_and", "logical_or"):
                if self.typ_of(lv)[0] != BOOL:
                    raise Err("non_bool_logical", x, l)
                short = bool(self.truth(lv)) == (x.d["op"] == "logical_or")
                rconst = const and not short
            rv = self.expr(r, rconst, env)
            ok, t = self.call(E.chk_bin, [self.raw_type(lv), op, self.raw_type(rv)])
            if not ok:
                raise Err(self.acode(t), x)
            if short:
                return self.done(x, lv)
            return self.evaluated(x, const, self.call(E.vv_bin, [lv, op, rv]), t)
        if k == "if":
            l, c, r = x.kids
            cv = self.expr(c, const, env)
            if self.typ_of(cv)[0] != BOOL:
                raise Err("condition_not_bool", x, c)
            lc = rc = const
            if const:
                if self.truth(cv):
                    rc = False
                else:
                    lc = False
            lv = self.expr(l, lc, env)
            rv = self.expr(r, rc, env)
            ok, t = self.call(E.chk_if, [self.raw_type(lv), self.raw_type(cv), self.raw_type(rv)])
            if not ok:
                raise Err(self.acode(t), x)
            return self.evaluated(x, const, self.call(E.vv_if, [lv, cv, rv]), t)
        if k == "conv":
            e, ty = x.kids
            v = self.expr(e, const, env)
            t = self.type(ty)
            if not self.convertible(self.typ_of(v), t):
                raise Err("incompatible_types", x, ty, e)
            return self.evaluated(x, const, self.call(E.vv_conv, [v, self.ty(t)]), t, e)
        if k == "literal":
            return self.done(x, x.d["value"])
        if k == "call":
            return self.fcall(x, const, env)
        raise AnalysisBroken("reference: " + k)

    def truth(self, v):
        return self.run.split_value(self.run.field(method(self.run, v, "concrete_value"), "int_value").v)

    def fcall(self, x, const, env):
        E = self.E
        args = [self.expr(a, const, env) for a in x.kids]
        tgt = x.d["target"]
        if not isinstance(tgt, X):
            if tgt[0] == "parameter":
                raise Err("call_non_function", x)
            if len(args) != 1:
                raise Err("wrong_number_of_arguments", x)
            if self.typ_of(args[0])[0] != BOOL:
                raise Err("wrong_argument_type", x)
            if not self.is_known(args[0]):
                return self.done(x, self.unknown(VOIDT))
            if self.truth(args[0]):
                return self.done(x, self.void())
            if const:
                raise Err(("evaluation_error", "assertion_fail"), x)
            return self.done(x, self.unknown(VOIDT))
        if tgt.k != "function":
            raise Err("call_non_function", x)
        params = tgt.d["params"]
        if len(params) != len(args):
            raise Err("wrong_number_of_arguments", x)
        self.function(tgt, "const" if const else "shallow", x)
        rt = self.type(tgt.d["rt"])
        conv = []
        for a, n, p in zip(args, x.kids, params):
            t = self.type(p)
            if not self.convertible(self.typ_of(a), t):
                raise Err("incompatible_types", x, n)
            if const:
                ok, v = self.call(E.vv_conv, [a, self.ty(t)])
                if not ok:
                    raise Err(("evaluation_error", self.code(v)), x, n)
                conv.append(v)
        if not const:
            return self.done(x, self.unknown(rt))
        return self.done(x, self.run_function(tgt, conv, x))

    def run_function(self, f, args, x):
        """evaluates a body of the form `[statements without effect] return expression`"""
        for s in f.d["body"].kids:
            if s.k == "control":
                if s.kids[0] is None:
                    return self.void()
                saved = {id(n): getattr(n, "exp", None) for n in s.walk()}
                try:
                    v = self.expr(s.kids[0], True, args)
                except Err as e:
                    raise Err(e.code, x, *(list(e.nodes) + list(s.walk())))
                finally:
                    for n in s.walk():
                        if saved[id(n)] is not None:
                            n.exp = saved[id(n)]
                ok, v = self.call(self.E.vv_conv, [v, self.ty(self.type(f.d["rt"]))])
                if not ok:
                    raise Err(("evaluation_error", self.code(v)), x, *list(s.walk()))
                return v
        return self.void()

    def void(self):
        return Maker.val(self, VOIDT, 0)

    # -- types
    def type(self, x):
        if getattr(x, "t", None):
            return x.t
        t = x.d["t"]
        if t[0] == UINT:
            w = x.kids[0]
            v = self.expr(w, True)
            if self.typ_of(v)[0] not in (INT, UINT):
                raise Err("width_not_integer", w)
            n = self.run.field(method(self.run, v, "concrete_value"), "int_value").v
            if not self.run.decide(ops.binary(">", n, 0, 128, True)) or not self.run.decide(ops.binary("<=", n, 128, 128, True)):
                raise Err("width_invalid", w)
            t = (UINT, n)
        x.t = t
        x.exp = self.unknown(t)
        return t

    # -- declarations and statements
    def function(self, x, level, user=None):
        done = getattr(x, "level", 0)
        lv = {"shallow": 1, "full": 2, "const": 3}[level]
        if level == "const" and x in self.active:
            raise Err("codegen_call_to_unanalyzed", user)
        if done >= lv:
            return
        for p in x.d["params"]:
            self.type(p)
        self.type(x.d["rt"])
        self.active.append(x)
        req = x.d["requires"]
        if req is not None and not hasattr(req, "exp"):
            v = self.expr(req, True)
            if self.typ_of(v)[0] != BOOL:
                raise Err("requires_clause_not_bool", req)
            if not self.truth(v):
                raise Err("requires_clause_not_satisfied", req)
        x.level = max(done, 1)
        if lv >= 2:
            self.stmt(x.d["body"], {"rt": self.type(x.d["rt"]), "loop": False, "level": level})
        self.active.pop()
        x.level = lv

    def stmt(self, x, env):
        if x is None:
            return
        k, E = x.k, self.E
        env = env or {}

        def ex(e, const=False):
            return self.expr(e, const)
        if k == "block":
            for s in x.kids:
                self.stmt(s, env)
            x.exp = None
        elif k in ("letdecl", "constdecl"):
            ty, init = x.kids
            const = k == "constdecl"
            if const and hasattr(x, "exp"):
                return
            t = self.type(ty) if ty is not None else None
            v = None
            if init is not None:
                v = ex(init, const)
                if t is None:
                    t = self.typ_of(v)
                elif not self.convertible(self.typ_of(v), t):
                    raise Err("incompatible_types", x, init)
            if const:
                ok, cv = self.call(E.vv_conv, [v, self.ty(t)])
                if not ok:
                    raise Err(("evaluation_error", self.code(cv)), x, init)
                x.exp = cv
            else:
                x.exp = self.unknown(t)
        elif k == "assert":
            v = ex(x.kids[0], True)
            if self.typ_of(v)[0] != BOOL:
                raise Err("static_assert_expression_not_bool", x, x.kids[0])
            if not self.truth(v):
                raise Err("static_assertion_failed", x, x.kids[0])
            x.exp = v
        elif k == "ifs":
            c, t, e = x.kids
            v = ex(c)
            if self.typ_of(v)[0] != BOOL:
                raise Err("condition_not_bool", x, c)
            self.stmt(t, env)
            if e is not None:
                self.stmt(e, env)
            x.exp = None
        elif k == "while":
            c, b = x.kids
            v = ex(c)
            if self.typ_of(v)[0] != BOOL:
                raise Err("condition_not_bool", x, c)
            self.stmt(b, dict(env, loop=True))
            x.exp = None
        elif k == "control":
            w = x.d["what"]
            if w in ("break", "continue"):
                if not env["loop"]:
                    raise Err(w + "_outside_loop", x)
                x.exp = None
                return
            rt = env["rt"]
            e = x.kids[0]
            if e is None:
                if rt[0] != VOID:
                    raise Err("empty_return_in_non_void_function", x)
                x.exp = self.void()
                return
            v = ex(e)
            if not self.convertible(self.typ_of(v), rt):
                raise Err("incompatible_types", x, e)
            self.evaluated(x, False, self.call(E.vv_conv, [v, self.ty(rt)]), rt)
        elif k == "assign":
            tgt = x.d["target"]
            kind = tgt[0] if not isinstance(tgt, X) else {"letdecl": "let", "constdecl": "const", "function": "function"}.get(tgt.k, "parameter")
            bad = {"const": "assigning_const", "function": "assigning_function", "builtin": "assigning_function", "parameter": "assigning_parameter"}.get(kind)
            if bad:
                raise Err(bad, x)
            t = self.typ_of(tgt.exp) if isinstance(tgt, X) else tgt[1]
            v = ex(x.kids[0])
            if not self.convertible(self.typ_of(v), t):
                raise Err("incompatible_types", x, x.kids[0])
            self.evaluated(x, False, self.call(E.vv_conv, [v, self.ty(t)]), t)
        elif k == "function":
            self.function(x, env["level"] if env else "full")
        elif k == "program":
            for d in x.kids:
                self.stmt(d, {"level": "full", "rt": None, "loop": False})
            x.exp = None
        else:
            self.expr(x, False)


# ------------------------------------------------------------------------------------------------ running
def run_case(ctx, E, key, build, limit=4000):
    P = ctx.p
    f = fn_by(P, "bms::analyze_semantics", ["Analyzed_Program", None])
    state = {}

    def get_root(run, e, obj, args):
        return ptr(state["root"])

    def get_vm(run, e, obj, args):
        return state["vm"]
    hooks = {NS + "Analyzed_Program::get_root": get_root, NS + "Analyzed_Program::get_vm": get_vm}

    def entry(run):
        state.pop("root", None)
        mk = Maker(run, E)
        x = build(mk)
        state["root"] = x.cell
        mem = run.fresh(f["p"][1]["t"], "memory")
        state["vm"] = Cell(construct(run, NS + "Virtual_Machine", [None], [mem]))
        prog = Cell(Obj(P.record(NS + "Analyzed_Program"), "program"))
        state["phase"] = "analysis"
        r = invoke(run, f, [prog, mem])
        state["phase"] = "rules"
        st, val = result_state(run, r)
        ref = Ref(run, E)
        want = None
        try:
            ref.stmt(x, None)
        except Err as e:
            want = e
        judge(ctx, E, run, key, mk, x, st, val, want)
        return r

    n = 0
    for p in explore(P, entry, hooks, {"unroll": 400, "rec_limit": 12}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.kind != "return":
            if state["phase"] != "analysis":
                raise AnalysisBroken("%s: the rules end with %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: analysis ends with %s (%s)" % (key, p.kind, p.why or p.exc))
    ctx.count("constructs analysed")
    ctx.count("paths", n)


def judge(ctx, E, run, key, mk, x, st, val, want):
    if want is None:
        if not ctx.ok(st == "ok", key + ":rejected", "%s is well-formed but rejected with %s [%s]" % (
                key, "-" if st == "ok" else err_code(E, run, val), explain(run, 6))):
            return
        for n in x.walk():
            if not hasattr(n, "exp"):
                continue
            o = mk.T.const_value(n.cell)
            if not ctx.ok(run.decide(o.has) if o.has not in (0, 1) else bool(o.has), key + ":unanalysed:" + n.k, "%s: a %s was not analysed" % (key, n.k)):
                continue
            if n.exp is None:
                continue
            got, exp = o.val.v, n.exp
            gt, wt = E.rd_type(run, method(run, got, "get_type")), E.rd_type(run, method(run, exp, "get_type"))
            same = gt[0] == wt[0] and (gt[0] != UINT or eq(run, gt[1], wt[1], 32))
            ctx.ok(same, key + ":type:" + n.k, "%s: the %s has the type %s, the rules say %s [%s]" % (key, n.k, gt, wt, explain(run, 6)))
            gk, wk = run.decide(method(run, got, "is_known")), run.decide(method(run, exp, "is_known"))
            if not ctx.ok(gk == wk, key + ":known:" + n.k, "%s: the %s is %s, the rules say %s [%s]" % (
                    key, n.k, "known" if gk else "unknown", "known" if wk else "unknown", explain(run, 6))):
                continue
            if gk and same:
                a, b = (run.field(method(run, v, "concrete_value"), "int_value").v for v in (got, exp))
                ctx.ok(eq(run, a, b, 128), key + ":value:" + n.k, "%s: the %s has the value %r, the rules say %r [%s]" % (key, n.k, a, b, explain(run, 6)))
    else:
        if not ctx.ok(st == "err", key + ":accepted", "%s is accepted although the rules demand %s [%s]" % (key, want.code, explain(run, 6))):
            return
        got = err_code(E, run, val)
        ctx.ok(got == want.code, key + ":code", "%s is rejected with %s, the rules say %s [%s]" % (key, got, want.code, explain(run, 6)))
        info = method(run, val, "fail")
        pos = run.field(info, "pos").v
        line = run.concrete(run.field(pos.val.v, "line").v) if run.decide(pos.has) else None
        lines = {n.line for w in want.nodes for n in w.walk()}
        ctx.ok(line in lines, key + ":place", "%s: the error %s is reported at a node outside of the offending construct" % (key, got))


def eq(run, a, b, w):
    if repr(a) == repr(b):
        return True
    return run.facts.decide(ops.binary("==", a, b, w, True)) is True


def err_code(E, run, val):
    c = E.code(E.ac, run, method(run, val, "code"))
    if c == "evaluation_error":
        return (c, E.code(E.ec, run, method(run, val, "evaluation_error")))
    return c


# ------------------------------------------------------------------------------------------------ the constructs
def leaf(mk, what, t):
    if what == "k":
        return mk.known(t)
    if what == "l":
        return mk.var(t)
    if what == "b":
        return mk.bad()
    if what == "e":      # well-formed Int expression without a value
        return mk.div0()
    if what == "p":
        return mk.param_use(t)
    if what == "c":
        return mk.const(t)
    raise AnalysisBroken("leaf " + what)


def in_function(mk, *stmts, rt=VOIDT, params=(), requires=None, before=(), after=()):
    f = mk.fn("F", list(params), rt, mk.blk(*stmts), requires)
    return mk.program(*before, f, *after)


def observe(mk, e, const, local=False):
    """the expression as an initializer; in a function unless it is constant"""
    d = mk.constdecl(None, e) if const else mk.let(None, e)
    if const and not local:
        return mk.program(d)
    return in_function(mk, d, mk.let(None, mk.known(INTT)))


TYPES2 = [(U8, U8), (INTT, U8), (U8, INTT), (INTT, INTT), (BOOLT, BOOLT), (U8, U16), (BOOLT, INTT), (VOIDT, INTT), (U8, BOOLT)]
LEAVES2 = ["kk", "kl", "lk", "ll", "bk", "kb", "lb", "ek", "ke", "el", "le"]


def expression_cases(thorough):
    """name -> build(mk, const)"""
    out = {}
    ops_ = ["binary_plus", "division", "remainder", "shift_left", "less_than", "equals", "logical_and", "logical_or", "bitwise_and"]
    if thorough:
        ops_ = [o for _, o in BIN_TOKENS]
    for op in ops_:
        for tl, tr in TYPES2:
            for lv in LEAVES2:
                if not thorough and op not in ("logical_and", "logical_or", "division") and lv not in ("kk", "ll", "kl", "bk", "kb"):
                    continue
                if (lv[0] == "e" and tl != INTT) or (lv[1] == "e" and tr != INTT):
                    continue
                if "b" in lv and (tl, tr) not in ((U8, U8), (BOOLT, BOOLT)):
                    continue

                def f(mk, op=op, tl=tl, tr=tr, lv=lv):
                    return mk.bin(op, leaf(mk, lv[0], tl), leaf(mk, lv[1], tr))
                out["%s %s %s [%s]" % (E_show(tl), op, E_show(tr), lv)] = f
    # short-circuiting shields an operand without a value
    for op in ("logical_and", "logical_or"):
        def f(mk, op=op):
            return mk.bin(op, mk.known(BOOLT), mk.bin("equals", mk.div0(), mk.known(INTT)))
        out["%s with a right operand that has no value" % op] = f

        def f(mk, op=op):
            return mk.bin(op, mk.bin("equals", mk.div0(), mk.known(INTT)), mk.known(BOOLT))
        out["%s with a left operand that has no value" % op] = f

        def f(mk, op=op):
            return mk.bin(op, mk.known(BOOLT), mk.bin(op, mk.known(BOOLT), mk.var(BOOLT)))
        out["%s of a %s with a variable" % (op, op)] = f

        def f(mk, op=op):
            return mk.bin(op, mk.known(BOOLT), mk.iff(mk.var(BOOLT), mk.known(BOOLT), mk.bin("equals", mk.div0(), mk.known(INTT))))
        out["%s of an if-expression" % op] = f
    for op in UTOKEN:
        for t in (VOIDT, BOOLT, INTT, U8):
            for lv in "klbe":
                if (lv == "e" and t != INTT) or (lv == "b" and t != BOOLT):
                    continue

                def f(mk, op=op, t=t, lv=lv):
                    return mk.un(op, leaf(mk, lv, t))
                out["%s %s [%s]" % (op, E_show(t), lv)] = f
    for tl, tr in TYPES2:
        for tc in (BOOLT, INTT):
            for lv in (["kkk", "lkk", "kkl", "klk", "lll", "bkk", "kbk", "kkb", "ekk", "kke", "eke"] if tc == BOOLT else ["kkk", "lll"]):
                if (lv[0] == "e" and tl != INTT) or (lv[2] == "e" and tr != INTT) or ("b" in lv and (tl, tr) != (U8, U8)):
                    continue

                def f(mk, tl=tl, tr=tr, tc=tc, lv=lv):
                    return mk.iff(leaf(mk, lv[0], tl), leaf(mk, lv[1], tc), leaf(mk, lv[2], tr))
                out["%s if %s else %s [%s]" % (E_show(tl), E_show(tc), E_show(tr), lv)] = f
    for frm in (VOIDT, BOOLT, INTT, U8, U16):
        for to in (VOIDT, BOOLT, INTT, U8):
            for lv in "klbe":
                if (lv == "e" and frm != INTT) or (lv == "b" and (frm, to) != (INTT, U8)):
                    continue

                def f(mk, frm=frm, to=to, lv=lv):
                    return mk.conv(leaf(mk, lv, frm), to)
                out["%s as %s [%s]" % (E_show(frm), E_show(to), lv)] = f
    for lv in "klpcb":
        for t in (BOOLT, INTT, U8):
            def f(mk, lv=lv, t=t):
                return leaf(mk, lv, t)
            out["a %s of type %s" % ({"k": "value", "l": "variable", "p": "parameter", "c": "constant", "b": "builtin function"}[lv], E_show(t))] = f

    def f(mk):
        return mk.var(U8, False)
    out["a variable which is not defined yet"] = f

    def f(mk):
        return mk.const(U8, False)
    out["a constant which is not defined yet"] = f
    for tok, text, t, v in (("decimal_literal", "0", INTT, 0), ("decimal_literal", "170141183460469231731687303715884105727", INTT, (1 << 127) - 1),
                            ("hexadecimal_literal", "0xff", INTT, 255), ("binary_literal", "0b101", INTT, 5), ("octal_literal", "017", INTT, 15),
                            ("keyword_true", "true", BOOLT, 1), ("keyword_false", "false", BOOLT, 0)):
        def f(mk, tok=tok, text=text, t=t, v=v):
            x = mk.literal(tok, text)
            x.d["value"] = mk.val(t, v)
            return x
        out["literal %s" % text] = f
    for lv, t in (("k", BOOLT), ("l", BOOLT), ("k", U8), ("b", BOOLT)):
        def f(mk, lv=lv, t=t):
            return mk.call(("builtin", "assert"), [leaf(mk, lv, t)])
        out["assert(%s) [%s]" % (E_show(t), lv)] = f

    def f(mk):
        return mk.call(("builtin", "assert"), [mk.known(BOOLT), mk.known(BOOLT)])
    out["assert with two arguments"] = f

    def f(mk):
        return mk.call(("parameter",), [mk.known(BOOLT)])
    out["call of a parameter"] = f
    return out


def statement_cases(thorough):
    """name -> build(mk) -> program"""
    out = {}

    def case(name):
        def deco(f):
            out[name] = f
            return f
        return deco
    conds = [(lv, t) for t in (BOOLT, INTT, U8, VOIDT) for lv in "kl"] + [("b", BOOLT), ("e", INTT)]
    for lv, t in conds:
        for els in ("none", "block", "if"):
            def f(mk, lv=lv, t=t, els=els):
                e = None if els == "none" else mk.blk(mk.let(None, mk.known(U8))) if els == "block" else \
                    mk.if_(mk.known(BOOLT), mk.blk(), None)
                return in_function(mk, mk.if_(leaf(mk, lv, t), mk.blk(mk.let(None, mk.known(U8))), e))
            out["if of %s [%s], else: %s" % (E_show(t), lv, els)] = f

        def f(mk, lv=lv, t=t):
            return in_function(mk, mk.while_(leaf(mk, lv, t), mk.blk(mk.let(None, mk.known(U8)))), mk.let(None, mk.known(U8)))
        out["while of %s [%s]" % (E_show(t), lv)] = f
    for where in ("first", "then", "else", "else if", "loop", "nested", "second"):
        def f(mk, where=where):
            b = mk.blk(mk.let(None, mk.known(U8)), mk.let(None, mk.bad()))
            g = mk.blk(mk.let(None, mk.known(U8)))
            k = mk.known(BOOLT)
            s = {"first": lambda: [b, g], "second": lambda: [g, b], "then": lambda: [mk.if_(k, b, g)], "else": lambda: [mk.if_(k, g, b)],
                 "else if": lambda: [mk.if_(k, g, mk.if_(mk.known(BOOLT), b, None))], "loop": lambda: [mk.while_(k, b)],
                 "nested": lambda: [mk.blk(mk.blk(g, b))]}[where]()
            return in_function(mk, *s)
        out["an ill-formed statement: %s" % where] = f
    for w in ("break", "continue"):
        for where in ("function", "block", "if", "loop", "if in loop", "block in loop", "after loop", "else in loop", "inner loop"):
            def f(mk, w=w, where=where):
                c = mk.control(w)
                k = lambda: mk.known(BOOLT)
                b = lambda *s: mk.blk(*s)
                s = {"function": lambda: [c], "block": lambda: [b(b(c))], "if": lambda: [mk.if_(k(), b(c))],
                     "loop": lambda: [mk.while_(k(), b(c))], "if in loop": lambda: [mk.while_(k(), b(mk.if_(k(), b(c))))],
                     "block in loop": lambda: [mk.while_(k(), b(b(c)))], "after loop": lambda: [mk.while_(k(), b()), c],
                     "else in loop": lambda: [mk.while_(k(), b(mk.if_(k(), b(), b(c))))],
                     "inner loop": lambda: [mk.while_(k(), b(mk.while_(k(), b(c))))]}[where]()
                return in_function(mk, *s)
            out["%s in %s" % (w, where)] = f
    tt = [VOIDT, BOOLT, INTT, U8, U16]
    for rt in tt[:4]:
        def f(mk, rt=rt):
            return in_function(mk, mk.control("return"), rt=rt)
        out["return; in a function of type %s" % E_show(rt)] = f
        for t in tt:
            for lv in "kl":
                def f(mk, rt=rt, t=t, lv=lv):
                    return in_function(mk, mk.blk(mk.control("return", leaf(mk, lv, t))), rt=rt)
                out["return %s in a function of type %s [%s]" % (E_show(t), E_show(rt), lv)] = f
    for lv in "be":
        def f(mk, lv=lv):
            return in_function(mk, mk.control("return", leaf(mk, lv, INTT)), rt=U8)
        out["return of an expression [%s]" % lv] = f
    for vt in (BOOLT, INTT, U8):
        for t in tt:
            for lv in "kl":
                def f(mk, vt=vt, t=t, lv=lv):
                    return in_function(mk, mk.assign(("let", vt), leaf(mk, lv, t)))
                out["assignment of %s to a variable of type %s [%s]" % (E_show(t), E_show(vt), lv)] = f

                def f(mk, vt=vt, t=t, lv=lv):
                    return in_function(mk, mk.let(vt, leaf(mk, lv, t)))
                out["let of type %s from %s [%s]" % (E_show(vt), E_show(t), lv)] = f

                def f(mk, vt=vt, t=t, lv=lv):
                    return mk.program(mk.constdecl(vt, leaf(mk, lv, t)))
                out["const of type %s from %s [%s]" % (E_show(vt), E_show(t), lv)] = f
    for lv in "be":
        def f(mk, lv=lv):
            return in_function(mk, mk.assign(("let", U8), leaf(mk, lv, INTT)))
        out["assignment of an expression [%s]" % lv] = f

        def f(mk, lv=lv):
            return in_function(mk, mk.let(U8, leaf(mk, lv, INTT)))
        out["let from an expression [%s]" % lv] = f

        def f(mk, lv=lv):
            return in_function(mk, mk.constdecl(U8, leaf(mk, lv, INTT)))
        out["local const from an expression [%s]" % lv] = f

        def f(mk, lv=lv):
            return in_function(mk, mk.static_assert(leaf(mk, lv, INTT)))
        out["static_assert of an expression [%s]" % lv] = f
    for tgt in (("const", U8), ("function",), ("builtin",), ("parameter",)):
        def f(mk, tgt=tgt):
            return in_function(mk, mk.assign(tgt, mk.known(U8)))
        out["assignment to a %s" % tgt[0]] = f

    for t in (U8, BOOLT):
        def f(mk, t=t):
            return in_function(mk, mk.let(t, None), mk.let(None, mk.known(U8)))
        out["let of type %s without initializer" % E_show(t)] = f
    for t in (BOOLT, INTT, U8, VOIDT):
        for lv in "klp":
            for where in ("global", "local"):
                if lv == "p" and t != BOOLT:
                    continue

                def f(mk, t=t, lv=lv, where=where):
                    s = mk.static_assert(leaf(mk, lv, t))
                    return mk.program(s, mk.constdecl(None, mk.known(U8))) if where == "global" else in_function(mk, s)
                out["%s static_assert of %s [%s]" % (where, E_show(t), lv)] = f
    for op in ("equals", "less_than", "logical_and"):
        def f(mk, op=op):
            t = BOOLT if op == "logical_and" else INTT
            return mk.program(mk.static_assert(mk.bin(op, mk.known(t), mk.known(t))))
        out["static_assert of a %s" % op] = f
    # variables and constants declared in the program
    for lv, t in (("k", U8), ("l", U8), ("k", BOOLT)):
        def f(mk, lv=lv, t=t):
            d = mk.let(None, leaf(mk, lv, t))
            use = mk.x("uselet", "Id_Expression", "use", decl=d)
            mk.lookup(use.cell, "Some_Node", Ptr(d.cell))
            return in_function(mk, d, mk.let(None, use), mk.assign(d, mk.known(t)))
        out["use of a declared variable of type %s [%s]" % (E_show(t), lv)] = f

        def f(mk, lv=lv, t=t):
            d = mk.let(None, leaf(mk, lv, t))
            use = mk.x("uselet", "Id_Expression", "use", decl=d)
            mk.lookup(use.cell, "Some_Node", Ptr(d.cell))
            return in_function(mk, d, mk.constdecl(None, use))
        out["const from a declared variable of type %s [%s]" % (E_show(t), lv)] = f

    @case("use of a constant in constants, variables and types")
    def _(mk):
        d = mk.constdecl(None, mk.known(INTT))
        us = []
        for i in range(4):
            u = mk.x("useconst", "Id_Expression", "use", decl=d)
            mk.lookup(u.cell, "Some_Node", Ptr(d.cell))
            us.append(u)
        e = mk.constdecl(None, us[0])
        return in_function(mk, mk.let(None, us[1]), mk.let(mk.type((UINT, None), us[2]), None), mk.static_assert(mk.bin("equals", us[3], mk.known(INTT, 8))), before=[d, e])

    @case("use of a constant before its definition")
    def _(mk):
        d = mk.constdecl(None, mk.known(INTT))
        u = mk.x("useconst", "Id_Expression", "use", decl=d)
        mk.lookup(u.cell, "Some_Node", Ptr(d.cell))
        return mk.program(mk.constdecl(None, u), d)
    # widths
    for lv, t in (("k", INTT), ("k", U8), ("k", BOOLT), ("l", INTT), ("b", INTT), ("e", INTT), ("p", INTT)):
        for where in ("variable", "constant", "parameter", "return type", "conversion"):
            def f(mk, lv=lv, t=t, where=where):
                ty = mk.type((UINT, None), leaf(mk, lv, t))
                if where == "variable":
                    return in_function(mk, mk.let(ty, None))
                if where == "constant":
                    return mk.program(mk.constdecl(ty, mk.known(INTT, 1)))
                if where == "parameter":
                    return in_function(mk, mk.let(None, mk.known(U8)), params=[BOOLT, ty])
                if where == "return type":
                    return in_function(mk, mk.control("return", mk.known(INTT, 0)), rt=ty)
                return in_function(mk, mk.let(None, mk.conv(mk.known(INTT, 1), ty)))
            out["width of a %s: %s [%s]" % (where, E_show(t), lv)] = f
    # requires clauses
    for lv, t in (("k", BOOLT), ("k", INTT), ("l", BOOLT), ("b", BOOLT), ("k", U8)):
        def f(mk, lv=lv, t=t):
            return in_function(mk, mk.let(None, mk.known(U8)), requires=leaf(mk, lv, t))
        out["requires-clause of type %s [%s]" % (E_show(t), lv)] = f

    # ---- calls of functions
    def callee(mk, params, rt, ret=None, requires=None, extra=()):
        f = mk.fn("G", list(params), rt, mk.blk(*extra), requires)
        e = ret(f) if ret else None
        if ret:
            r = mk.control("return", e)
            b = f.d["body"]
            b.kids = tuple(extra) + (r,)
            mk.T.set_children(b.cell, [k.cell for k in b.kids])
            mk.T.set_parent(r.cell, b.cell)
        return f
    for ptypes, atypes in ((([U8]), [U8]), ([U8], [INTT]), ([U8], [U16]), ([INTT, BOOLT], [INTT, BOOLT]), ([INTT, BOOLT], [BOOLT, INTT]),
                           ([U8, U8], [INTT, U8]), ([INTT], [U8]), ([], []), ([U8], []), ([], [U8]), ([U8], [U8, U8]), ([BOOLT], [VOIDT])):
        for lv in "kl":
            for const in (False, True):
                for after in (False, True):
                    if after and (const or len(ptypes) != 2):
                        continue

                    def f(mk, ptypes=ptypes, atypes=atypes, lv=lv, const=const, after=after):
                        g = callee(mk, ptypes, U8, lambda f: mk.use_param(f, len(ptypes) - 1) if ptypes and ptypes[-1] == U8 else mk.known(U8))
                        c = mk.call(g, [leaf(mk, lv, t) for t in atypes])
                        if const:
                            return mk.program(g, mk.constdecl(None, c))
                        return in_function(mk, mk.let(None, c), **({"after": [g]} if after else {"before": [g]}))
                    out["call of G(%s) with (%s) [%s]%s%s" % (", ".join(map(E_show, ptypes)), ", ".join(map(E_show, atypes)), lv,
                                                              ", constant" if const else "", ", defined later" if after else "")] = f
    for const in (False, True):
        for k in (0, 1):
            def f(mk, const=const, k=k):
                g = callee(mk, [U8, U8], U8, lambda f: mk.bin("binary_minus", mk.use_param(f, k), mk.use_param(f, 1 - k)))
                c = mk.call(g, [mk.known(U8), mk.known(INTT)])
                return mk.program(mk.constdecl(None, c), g) if const else in_function(mk, mk.let(None, c), before=[g])
            out["call with two arguments, %d%s" % (k, ", constant" if const else "")] = f

        def f(mk, const=const):
            g = callee(mk, [INTT, INTT], INTT, lambda f: mk.bin("division", mk.use_param(f, 0), mk.use_param(f, 1)))
            c = mk.call(g, [mk.known(INTT, 1), mk.known(INTT)])
            return mk.program(mk.constdecl(None, c), g) if const else in_function(mk, mk.let(None, c), before=[g])
        out["call of a function that divides%s" % (", constant" if const else "")] = f

        def f(mk, const=const):
            g = callee(mk, [U8], BOOLT, lambda f: mk.bin("equals", mk.use_param(f, 0), mk.known(U8)))
            h = callee(mk, [], BOOLT, lambda f: mk.known(BOOLT))
            c = mk.bin("logical_or", mk.call(h, []), mk.call(g, [mk.known(U8)]))
            return mk.program(mk.constdecl(None, c), g, h) if const else in_function(mk, mk.let(None, c), before=[g, h])
        out["calls of two functions%s" % (", constant" if const else "")] = f
        for lv, t in (("b", BOOLT), ("k", INTT), ("k", BOOLT)):
            def f(mk, const=const, lv=lv, t=t):
                g = callee(mk, [], U8, lambda f: mk.known(U8), requires=leaf(mk, lv, t))
                c = mk.call(g, [])
                return mk.program(mk.constdecl(None, c), g) if const else in_function(mk, mk.let(None, c), after=[g])
            out["call of a function with a requires-clause of type %s [%s]%s" % (E_show(t), lv, ", constant" if const else "")] = f
        for lv in "be":
            def f(mk, const=const, lv=lv):
                g = callee(mk, [], U8, lambda f: leaf(mk, lv, INTT))
                c = mk.call(g, [])
                return mk.program(mk.constdecl(None, c), g) if const else in_function(mk, mk.let(None, c), after=[g])
            out["call of a function whose body is ill-formed or has no value [%s]%s" % (lv, ", constant" if const else "")] = f

        def f(mk, const=const):
            ty = mk.type((UINT, None), mk.known(INTT))
            g = callee(mk, [ty], U8, lambda f: mk.known(U8))
            c = mk.call(g, [mk.known(INTT, 0)])
            return mk.program(mk.constdecl(None, c), g) if const else in_function(mk, mk.let(None, c), after=[g])
        out["call of a function with a parameter of unknown width%s" % (", constant" if const else "")] = f

        def f(mk, const=const):
            d = mk.constdecl(None, mk.known(INTT, 3))
            c = mk.call(d, [])
            return mk.program(d, mk.constdecl(None, c)) if const else in_function(mk, mk.let(None, c), before=[d])
        out["call of a constant%s" % (", constant" if const else "")] = f

    # ---- recursion
    def recursive(mk, rt, make_body, requires=None):
        f = mk.fn("F", [INTT], rt, mk.blk(), requires)
        ss = make_body(f)
        b = f.d["body"]
        b.kids = tuple(ss)
        mk.T.set_children(b.cell, [k.cell for k in ss])
        for k in ss:
            mk.T.set_parent(k.cell, b.cell)
        return f
    for rt in (INTT, U8, BOOLT, VOIDT):
        for req in (False, True):
            def f(mk, rt=rt, req=req):
                F = recursive(mk, rt, lambda F: [mk.let(None, mk.call(F, [mk.use_param(F, 0)])), mk.control("return", mk.call(F, [mk.known(INTT)]))],
                              mk.known(BOOLT, 1) if req else None)
                return mk.program(F)
            out["recursive function of type %s%s" % (E_show(rt), " with a requires-clause" if req else "")] = f

    @case("mutually recursive functions")
    def _(mk):
        cells = {}
        G = recursive(mk, U8, lambda G: [])
        F = recursive(mk, U8, lambda F: [mk.control("return", mk.call(G, [mk.use_param(F, 0)]))])
        b = G.d["body"]
        r = mk.control("return", mk.call(F, [mk.use_param(G, 0)]))
        b.kids = (r,)
        mk.T.set_children(b.cell, [r.cell])
        mk.T.set_parent(r.cell, b.cell)
        return mk.program(F, G)

    @case("a constant in a function which calls the function")
    def _(mk):
        F = recursive(mk, INTT, lambda F: [mk.constdecl(None, mk.call(F, [mk.known(INTT)])), mk.control("return", mk.known(INTT))])
        return mk.program(F)

    @case("two ill-formed declarations")
    def _(mk):
        return mk.program(mk.constdecl(None, mk.known(U8)), mk.constdecl(None, mk.bad()), mk.static_assert(mk.known(BOOLT, 0)))

    @case("statements after a return are analysed")
    def _(mk):
        return in_function(mk, mk.control("return"), mk.let(None, mk.bad()))
    return out


def check(ctx):
    P = ctx.p
    E = Env(P)
    ctx.rule("for every node kind and every combination of well-formed, ill-formed, known, unknown and valueless parts, analysis succeeds exactly when the "
             "language rules hold, and then gives every node the type and value the rules say; otherwise it names the violated rule at the offending construct")
    jobs = []
    for name, f in expression_cases(ctx.thorough).items():
        jobs.append(("%s, at run time" % name, lambda mk, f=f: observe(mk, f(mk), False)))
        jobs.append(("%s, constant" % name, lambda mk, f=f: observe(mk, f(mk), True)))
        if ctx.thorough:
            jobs.append(("%s, local constant" % name, lambda mk, f=f: observe(mk, f(mk), True, True)))
    jobs += list(statement_cases(ctx.thorough).items())
    import os
    import sys
    import time
    only = os.environ.get("BMSA_ONLY")
    for key, b in jobs:
        if only and only not in key:
            continue
        t0 = time.time()
        run_case(ctx, E, key, b)
        if os.environ.get("BMSA_PROGRESS"):
            sys.stderr.write("%.2f %s\n" % (time.time() - t0, key))
    if not only:
        ctx.need("constructs analysed", 500)
