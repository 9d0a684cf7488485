"""C09: annotations. Every annotated construct carries annotations with opaque names, keys and argument values; acceptance, errors and the stored
arguments are compared with an independent table of annotations, and every annotated construct of a tree must be reached."""
from ..ast import *  # noqa
from ..ast import Tree, NS, AST, set_behind, ptr, alternatives
from ..lib import Ext, explain, result_state, explore, fn_by, invoke
from ..terms import Sym, App, Cond, sub
from .. import ops
from .operators import Env, VOID, BOOL, INT, UINT
from .lookup import NMaker, line_of

ASTP = NS + "astp::"
INTT = (INT, 0)
C_VERSIONS = (89, 90, 99, 11, 17, 23, 29)
# annotation -> (applicable constructs, parameters (name, type, optional, accepted))
TABLE = {
    "immutable": ({"Const", "Let"}, []),
    "inline": ({"Const", "Let", "Function_Call_Expression"}, []),
    "loop_variable": ({"Const", "Let"}, []),
    "loop_step": ({"Assignment"}, []),
    "unroll": ({"While_Statement"}, [("limit", "int", False, "1..128")]),
    "c_equivalent": ({"Function"}, [("function", "str", False, "non-empty"), ("include", "str", True, "non-empty"), ("since", "int", True, "C version")]),
    "java_equivalent": ({"Function"}, [("method", "str", False, "non-empty")]),
    "instantiate": ({"Function"}, [("n", "int", False, "1..128")]),
    "false_if_unknown": ({"If_Statement"}, []),
    "remove_if_unused": ({"Function"}, []),
}
# `@immutable const` is not possible: constants are no variables
for k in ("immutable", "inline", "loop_variable"):
    TABLE[k][0].discard("Const")
ENUMNAME = {"inline": "inline_"}
LITERALS = {"keyword_true": "bool", "keyword_false": "bool", "binary_literal": "int", "octal_literal": "int", "decimal_literal": "int",
            "hexadecimal_literal": "int", "string_literal": "str"}


class AMaker(NMaker):
    def __init__(self, run, E):
        NMaker.__init__(self, run, E)
        self.parsed = {}
        self.values = {}
        rec, alts, self.by = alternatives(self.P, ASTP + "Some_Node")
        self.prec, self.palts = rec, alts

    def pnode(self, kind, pos_line):
        i = self.by[kind]
        o = self.run.fresh(self.palts[i], "%s%d" % (kind, len(self.parsed)))
        names = [x["n"] for x in self.run.all_fields(o.rec) if self.P.strip(x["t"]).get("n", "").endswith("_Source_Span")]
        if len(names) != 1:
            raise AnalysisBroken("position of parsed nodes")
        sp = self.run.field(o, names[0]).v
        self.run.field(sp, "line").v = pos_line
        c = Cell(self.run.mk_variant(self.prec, self.palts, i, o))
        h = len(self.parsed) + 7
        self.parsed[h] = c
        return h, o

    def pvec(self, o, field, handles):
        v = self.run.field(o, field).v
        v.length, v.path = len(handles), None
        v.elems = {i: Cell(h) for i, h in enumerate(handles)}

    def argument(self, key, token):
        """key: None or name; token: literal token; the value is opaque"""
        self.line += 1
        h, o = self.pnode("Annotation_Argument", self.line)
        n = len(self.parsed)
        self.run.field(o, "key").v = StrObj(None, "") if key is None else self.names.new(key)
        txt = StrObj(None, SymStr("value%d" % n, Sym("len(value%d)" % n, 62)))
        self.run.field(o, "value").v = txt
        # string tokens are stored without their quotation marks
        self.run.facts.assume(Cond("eq", sub(App("chr", ("value%d" % n, 0), 8, True), 34)), False)
        self.run.field(o, "value_type").v = self.P.enum("bms::Token_Type")[token]
        return {"h": h, "line": self.line, "key": key, "type": LITERALS[token], "token": token, "text": txt, "id": "value%d" % n}

    def annotation(self, name, args=()):
        self.line += 1
        line = self.line
        h, o = self.pnode("Annotation", line)
        self.run.field(o, "name").v = StrObj(None, name[1:]) if name.startswith("=") else self.names.new(name)
        self.pvec(o, "arguments", [a["h"] for a in args])
        return {"h": h, "line": line, "name": name, "args": list(args)}

    def annotate(self, x, *annotations):
        o = self.T.body(x.cell).v
        fs = [f["n"] for f in self.run.all_fields(o.rec) if self.P.strip(f["t"]).get("n", "").endswith("::Annotations")]
        if len(fs) != 1:
            raise AnalysisBroken("annotations of " + o.rec)
        a = self.run.field(o, fs[0]).v
        handles = concrete = None
        for f in self.run.all_fields(a.rec):
            c = self.run.field(a, f["n"])
            if isinstance(c.v, SpanObj):
                handles = c
            elif isinstance(c.v, VecObj):
                concrete = c
        if handles is None or concrete is None:
            raise AnalysisBroken("members of Annotations")
        vec = VecObj(None, handles.v.vec.et if hasattr(handles.v, "vec") else None, len(annotations), None, "array")
        vec.elems = {i: Cell(n["h"]) for i, n in enumerate(annotations)}
        handles.v = SpanObj(handles.v.rec, vec, 0, len(annotations))
        v = concrete.v
        v.length, v.elems, v.path = 0, {}, None
        x.d["annotations"] = list(annotations)
        x.d["stored"] = concrete
        return x


class Err(Exception):
    def __init__(self, code, place, cause=None):
        self.code, self.place, self.cause = code, place, cause


class Ref:
    def __init__(self, run, mk):
        self.run, self.mk = run, mk
        self.ints = {}

    def is_name(self, a, lit):
        return self.run.names.same(self.run, ("lit", a[1:]) if a.startswith("=") else ("name", a), ("lit", lit))

    def same_key(self, a, b):
        return self.run.names.same(self.run, ("name", a), ("lit", b))

    def tree(self, x):
        if x is None:
            return
        if "annotations" in x.d:
            x.exp = [self.annotation(a, x) for a in x.d["annotations"]]
        if x.k == "function":
            for t in x.d["params"]:
                self.tree(t)
            for t in (x.d["rt"], x.d["requires"], x.d["body"]):
                self.tree(t)
        else:
            for k in x.kids:
                self.tree(k)

    def annotation(self, a, x):
        kind = None
        for t in TABLE:
            if self.is_name(a["name"], t):
                kind = t
                break
        if kind is None:
            raise Err("annotation_unknown", a["line"], x.line)
        where, params = TABLE[kind]
        if node_kind(self.mk, x) not in where:
            raise Err("annotation_not_applicable", a["line"], x.line)
        covered = set()
        vals = []
        for g in a["args"]:
            if g["key"] is None:
                free = [i for i in range(len(params)) if i not in covered]
                if not free:
                    raise Err("annotation_too_many_arguments", g["line"], a["line"])
                i = free[0]
            else:
                for i, p in enumerate(params):
                    if self.same_key(g["key"], p[0]):
                        break
                else:
                    raise Err("annotation_unknown_parameter", g["line"], a["line"])
                if i in covered:
                    raise Err("annotation_argument_duplicate", g["line"], a["line"])
            covered.add(i)
            p = params[i]
            if p[1] != g["type"]:
                raise Err("annotation_argument_wrong_type", g["line"], a["line"])
            vals.append(self.value(g, p, a))
        for i, p in enumerate(params):
            if i not in covered and not p[2]:
                raise Err("annotation_missing_argument", a["line"])
        return kind, vals

    def value(self, g, p, a):
        run = self.run
        if g["type"] == "int":
            v = self.mk.values.get(g["id"])
            if v is None:
                raise Err("invalid_integer_literal", g["line"])
            if p[3] == "1..128":
                ok = run.decide(ops.binary(">=", v, 1, 128, True)) and run.decide(ops.binary("<=", v, 128, 128, True))
            else:
                ok = any(run.decide(ops.binary("==", v, k, 128, True)) for k in C_VERSIONS)
        elif g["type"] == "str":
            v = g["text"]
            ok = not run.decide(ops.binary("==", v.length, 0, 64, False))
        else:
            v, ok = int(g["token"] == "keyword_true"), True
        if not ok:
            raise Err("annotation_argument_wrong_value", g["line"], a["line"])
        return v


def node_kind(mk, x):
    return tname(mk.P, mk.T.kinds[1][x.cell.v.idx]).split("::")[-1]


def run_case(ctx, E, key, build, limit=30000):
    P = ctx.p
    f = fn_by(P, "bms::resolve_annotations", ["Analyzed_Program", "Parsed_Program"])
    state = {}

    def get_root(run, e, obj, args):
        return ptr(state["root"])

    def get_node(run, e, obj, args):
        h = run.concrete(args[0].v if isinstance(args[0], Cell) else args[0])
        c = state["mk"].parsed.get(h)
        if c is None:
            raise AnalysisBroken("parsed node %r" % (h,))
        return c

    def parse_int(run, e, obj, args):
        o = args[0].v if isinstance(args[0], Cell) else args[0]
        mk = state["mk"]
        if not isinstance(o, StrObj) or not isinstance(o.base, SymStr) or o.base.name not in {g for g in mk_ids(mk)} or run.concrete(o.off) != 0 or o.length is not o.base.length:
            raise AnalysisBroken("integer literal of an annotation is taken from %r" % (o,))
        ty = run.p.strip(e["t"])
        nat, ta = run.p.native(ty["n"])
        n = o.base.name
        if n not in mk.values:
            mk.values[n] = Sym("number(%s)" % n, 128, True) if run.choose(2) == 0 else None
        v = mk.values[n]
        return OptObj(ty["n"], ta[0][1], 0 if v is None else 1, None if v is None else Cell(v))

    def memory(run, e, obj, args):
        return Ptr(Cell(Ext("memory")))
    hooks = {NS + "Analyzed_Program::get_root": get_root, NS + "Parsed_Program::get_node": get_node, "bit_manipulation::parse_integer_literal": parse_int,
             NS + "Analyzed_Program::get_memory_resource": memory}

    def entry(run):
        mk = AMaker(run, E)
        state["mk"] = mk
        x = build(mk)
        state["root"] = x.cell
        prog = Cell(Obj(P.record(NS + "Analyzed_Program"), "program"))
        parsed = Cell(Obj(P.record(NS + "Parsed_Program"), "parsed"))
        state["phase"] = "analysis"
        r = invoke(run, f, [prog, parsed])
        state["phase"] = "rules"
        st, val = result_state(run, r)
        ref, want = Ref(run, mk), None
        try:
            ref.tree(x)
        except Err as e:
            want = e
        why = "; ".join("%s=%s" % c for c in run.path_conds[-8:])
        if want is not None:
            if not ctx.ok(st == "err", key + ":accepted", "%s: accepted although it should be rejected with %s [%s]" % (key, want.code, why)):
                return
            got = E.code(E.ac, run, method(run, val, "code"))
            ctx.ok(got == want.code, key + ":code", "%s: rejected with %s instead of %s [%s]" % (key, got, want.code, why))
            ctx.ok(line_of(run, val, "fail") == want.place, key + ":place", "%s: the error %s is reported at another place [%s]" % (key, got, why))
            if want.cause is not None:
                ctx.ok(line_of(run, val, "cause") == want.cause, key + ":cause", "%s: the error %s names another construct as its cause [%s]" % (key, got, why))
            return
        if not ctx.ok(st == "ok", key + ":rejected", "%s: rejected with %s although the annotations are valid [%s]" % (
                key, "-" if st == "ok" else E.code(E.ac, run, method(run, val, "code")), why)):
            return
        at = {v: k for k, v in P.enum("bms::Annotation_Type").items()}
        for n in x.walk():
            if not hasattr(n, "exp"):
                continue
            vec = n.d["stored"].v
            cnt = run.concrete(vec.length)
            if not ctx.ok(cnt == len(n.exp), key + ":count", "%s: %s annotations are stored instead of %d [%s]" % (key, cnt, len(n.exp), why)):
                continue
            for i, (kind, vals) in enumerate(n.exp):
                a = run.elem(vec, i).v
                got = at.get(run.concrete(run.field(a, "type").v))
                ctx.ok(got == ENUMNAME.get(kind, kind), key + ":type", "%s: the annotation %s is stored as %s [%s]" % (key, kind, got, why))
                av = run.field(a, "arguments").v
                m = run.concrete(av.length)
                if not ctx.ok(m == len(vals), key + ":arguments", "%s: %s arguments are stored instead of %d [%s]" % (key, m, len(vals), why)):
                    continue
                for j, v in enumerate(vals):
                    w = run.elem(av, j).v
                    idx = run.split_value(w.idx)
                    c = run.variant_cell(w, idx).v
                    if isinstance(v, StrObj):
                        same = isinstance(c, StrObj) and c.key() == v.key()
                    else:
                        same = not isinstance(c, StrObj) and not run.p.strip(w.alts[idx])["k"] == "rec" and repr(run.concrete(c)) == repr(run.concrete(v))
                    ctx.ok(same, key + ":value", "%s: argument %d of %s is stored as %r instead of %r [%s]" % (key, j, kind, c, v, why))
        return r

    n = 0
    for p in explore(P, entry, hooks, {"unroll": 400, "rec_limit": 12}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.kind != "return":
            if state["phase"] != "analysis":
                raise AnalysisBroken("%s: the rules end with %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: annotation analysis ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("annotated programs")
    ctx.count("paths", n)


def mk_ids(mk):
    return {"value%d" % i for i in range(len(mk.parsed) + 9)}


def cases(thorough):
    out = {}

    def targets(mk):
        e = lambda: mk.literal("decimal_literal", "1")
        return {
            "Let": lambda: mk.nlet("x", None, e()), "Const": lambda: mk.nconst("x", None, e()), "While_Statement": lambda: mk.while_(e(), mk.blk()),
            "If_Statement": lambda: mk.if_(e(), mk.blk(), mk.blk()), "Assignment": lambda: mk.nassign("x", e()), "Function_Call_Expression": lambda: mk.ncall("x", e()),
            "Function": None, "global Const": None}

    def build(mk, kind, anns):
        """program with an annotated construct"""
        e = lambda: mk.literal("decimal_literal", "1")
        if kind == "Function":
            return mk.program(mk.annotate(mk.nfn("f", [("p", mk.int())], mk.int(), mk.blk()), *anns))
        if kind == "global Const":
            return mk.program(mk.annotate(mk.nconst("x", None, e()), *anns))
        t = mk.annotate(targets(mk)[kind](), *anns)
        return mk.program(plain(mk, mk.nfn("f", [], mk.int(), mk.blk(t))))

    def plain(mk, x):
        for n in x.walk():
            if "annotations" not in n.d and node_kind(mk, n) in ("Let", "Const", "While_Statement", "If_Statement", "Assignment", "Function_Call_Expression", "Function"):
                mk.annotate(n)
        return x
    KINDS = ("Let", "Const", "While_Statement", "If_Statement", "Assignment", "Function_Call_Expression", "Function", "global Const")
    # every annotation (opaque name) on every construct, without and with an argument
    for k in KINDS:
        for tok in (None, "decimal_literal", "string_literal", "keyword_true"):
            def f(mk, k=k, tok=tok):
                return plain(mk, build(mk, k, [mk.annotation("a", [] if tok is None else [mk.argument(None, tok)])]))
            out["%s annotated, %s" % (k, tok or "no argument")] = f
    for k, a in (("While_Statement", "unroll"), ("Function", "java_equivalent"), ("Function", "instantiate"), ("Function", "c_equivalent"), ("Let", "immutable")):
        for tok in LITERALS:
            for key in (None, "k"):
                def f(mk, k=k, a=a, tok=tok, key=key):
                    return plain(mk, build(mk, k, [mk.annotation("=" + a, [mk.argument(key, tok)])]))
                out["%s(%s%s)" % (a, "key = " if key else "", tok)] = f
        reps = ("decimal_literal", "string_literal") if a == "c_equivalent" else ("decimal_literal" if a in ("unroll", "instantiate") else "string_literal",)
        import itertools
        for n in (2, 3, 4):
            if n > 2 and a != "c_equivalent":
                continue
            for toks in itertools.product(reps, repeat=n):
                for keys in itertools.product((0, 1), repeat=n):
                    if n == 4 and (not thorough or toks[0] != "string_literal"):
                        continue
                    if n == 3 and not thorough and toks[0] != "string_literal":
                        continue

                    def f(mk, k=k, a=a, toks=toks, keys=keys):
                        return plain(mk, build(mk, k, [mk.annotation("=" + a, [mk.argument("k%d" % i if q else None, t) for i, (t, q) in enumerate(zip(toks, keys))])]))
                    out["%s(%s)" % (a, ", ".join(("key = " if q else "") + t for t, q in zip(toks, keys)))] = f
    # several annotations
    for n in (3, 4):
        def f(mk, n=n):
            return plain(mk, build(mk, "Let", [mk.annotation("=" + ("immutable", "loop_variable", "inline", "immutable")[i]) for i in range(n)]))
        out["Let with %d annotations" % n] = f

        def f(mk, n=n):
            return plain(mk, build(mk, "Function", [mk.annotation("=remove_if_unused") for i in range(n - 1)] + [mk.annotation("a")]))
        out["Function with %d annotations" % n] = f
    for k in ("Let", "Function"):
        def f(mk, k=k):
            return plain(mk, build(mk, k, [mk.annotation("a"), mk.annotation("b")]))
        out["%s with two annotations" % k] = f

    def two(mk):
        return plain(mk, build(mk, "Function", [mk.annotation("=java_equivalent", [mk.argument(None, "string_literal")]), mk.annotation("=c_equivalent", [mk.argument(None, "string_literal")])]))
    out["two annotations with arguments"] = two

    # every annotated construct at every place is reached
    def at(key):
        def d(g):
            for kind in ("call", "plain"):
                def f(mk, g=g):
                    e = lambda: mk.literal("decimal_literal", "1")
                    bad = mk.annotate(mk.ncall("c"), mk.annotation("a"))
                    return plain(mk, g(mk, bad, e))
                out["annotated call: " + key] = f
        return d

    def fn(mk, *s, params=(), rt=None, requires=None):
        return mk.program(mk.nfn("f", list(params), rt or mk.int(), mk.blk(*s), requires))
    for key, g in {
        "statement": lambda mk, b, e: fn(mk, b), "second statement": lambda mk, b, e: fn(mk, mk.nlet("x", None, e()), b),
        "let": lambda mk, b, e: fn(mk, mk.nlet("x", None, b)), "let type": lambda mk, b, e: fn(mk, mk.nlet("x", mk.uint(b), e())), "const": lambda mk, b, e: fn(mk, mk.nconst("x", None, b)),
        "const type": lambda mk, b, e: fn(mk, mk.nconst("x", mk.uint(b), e())), "global const": lambda mk, b, e: mk.program(mk.nconst("x", None, b)),
        "global static_assert": lambda mk, b, e: mk.program(mk.static_assert(b)), "static_assert": lambda mk, b, e: fn(mk, mk.static_assert(b)),
        "assignment": lambda mk, b, e: fn(mk, mk.nassign("x", b)), "return": lambda mk, b, e: fn(mk, mk.control("return", b)),
        "if condition": lambda mk, b, e: fn(mk, mk.if_(b, mk.blk())), "then": lambda mk, b, e: fn(mk, mk.if_(e(), mk.blk(b))), "else": lambda mk, b, e: fn(mk, mk.if_(e(), mk.blk(), mk.blk(b))),
        "else if": lambda mk, b, e: fn(mk, mk.if_(e(), mk.blk(), mk.if_(b, mk.blk()))),
        "while condition": lambda mk, b, e: fn(mk, mk.while_(b, mk.blk())), "while body": lambda mk, b, e: fn(mk, mk.while_(e(), mk.blk(b))), "block": lambda mk, b, e: fn(mk, mk.blk(b)),
        "parameter width": lambda mk, b, e: fn(mk, params=[("p", mk.uint(b))]), "second parameter width": lambda mk, b, e: fn(mk, params=[("p", mk.int()), ("q", mk.uint(b))]),
        "return type": lambda mk, b, e: fn(mk, rt=mk.uint(b)),
        "requires-clause": lambda mk, b, e: fn(mk, requires=b), "left operand": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.bin("binary_plus", b, e()))),
        "right operand": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.bin("binary_plus", e(), b))), "unary operand": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.un("bitwise_not", b))),
        "if expression 1": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.iff(b, e(), e()))), "if expression 2": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.iff(e(), b, e()))),
        "if expression 3": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.iff(e(), e(), b))), "conversion": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.conv(b, mk.int()))),
        "width of conversion": lambda mk, b, e: fn(mk, mk.nlet("x", None, mk.conv(e(), mk.uint(b)))), "argument": lambda mk, b, e: fn(mk, mk.ncall("g", e(), b)),
        "second function": lambda mk, b, e: mk.program(mk.nfn("g", [], mk.int(), mk.blk()), mk.nfn("f", [], mk.int(), mk.blk(b))),
    }.items():
        at(key)(g)
    for kind in ("Let", "Const", "While_Statement", "If_Statement", "Assignment"):
        for key in ("block", "then", "else", "loop"):
            def f(mk, kind=kind, key=key):
                e = lambda: mk.literal("decimal_literal", "1")
                t = mk.annotate(targets(mk)[kind](), mk.annotation("a"))
                s = {"block": lambda: mk.blk(t), "then": lambda: mk.if_(e(), mk.blk(t)), "else": lambda: mk.if_(e(), mk.blk(), mk.blk(t)), "loop": lambda: mk.while_(e(), mk.blk(t))}[key]()
                return plain(mk, fn(mk, s))
            out["annotated %s in %s" % (kind, key)] = f
    return out


def check(ctx):
    P = ctx.p
    E = Env(P)
    ctx.rule("for every annotated construct and all names, keys and values of annotations, annotation analysis succeeds exactly when each annotation exists, applies to the construct and has "
             "arguments as documented; the stored annotations equal the written ones, and errors have their own code, place and cause")
    import os
    only = os.environ.get("BMSA_ONLY")
    for key, b in cases(ctx.thorough).items():
        if not only or only in key:
            run_case(ctx, E, key, b)
    if not only:
        ctx.need("annotated programs", 100)
