"""C13: the BMS code generated for an analysed program is that program.

Trees of every node kind are generated through the public entry point. The children which are not under consideration are opaque nodes of every
kind: their own generation is replaced by a single mark (the claim that is established for each kind in turn). The characters emitted are read with an
independent lexer and the documented grammar, in which a mark stands for a construct of its kind, and the tree read is compared with the one given."""
from ..ast import *  # noqa
from ..ast import Tree, NS, AST, set_behind, mk_result, pass_hook
from ..lib import Ext, Sym, is_sym, CharSeq, explain, result_state, explore, parallel
from .operators import Env, VOID, BOOL, INT, UINT
from .codegen import operator_node, BIN_TOKENS, UN_TOKENS
from .analysis import Maker, TOKEN, UTOKEN, INTT, BOOLT, VOIDT
from .parsing import Grammar, COMPARE, ARITH, SPELL
from .tokens import FIXED, KEYWORDS

BMD = "bit_manipulation::bmd::"
EXPR_KINDS = ["if", "conversion", "call", "id", "literal"] + [op for _, op in BIN_TOKENS] + [op for _, op in UN_TOKENS]
FEW_EXPR = ["if", "conversion", "equals", "binary_plus", "logical_and", "bitwise_xor", "unary_minus", "call", "id", "literal"]
STMT_KINDS = ["Let", "Const", "Static_Assert", "Assignment", "Function_Call_Expression", "Control_Statement", "If_Statement", "While_Statement", "Block_Statement"]
DECL_KINDS = ["Const", "Function", "Static_Assert"]
WORD = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
OPERATORS = sorted(FIXED, key=lambda s: -len(s))


def category(kind):
    """where in the grammar an expression of the kind may stand"""
    if kind in ("if", "conversion"):
        return kind
    if kind in UTOKEN:
        return "prefix"
    if kind in TOKEN:
        t = frozenset([TOKEN[kind]])
        return "comparison" if t <= COMPARE else "arithmetic" if t <= ARITH else "binary"
    return "postfix"


# ------------------------------------------------------------------------------------------------ reading the text
class Marked(Grammar):
    """the documented grammar with marks for constructs"""

    def _and(self, nt, i, *cats):
        out = list(getattr(Grammar, nt)(self, i))
        for c in cats:
            for e, k in self.t(i, "#" + c):
                out.append((e, ("mark", k, {}, [])))
        return out

    def expression(self, i):
        return self._and("expression", i, "conversion")

    def if_expression(self, i):
        return self._and("if_expression", i, "if")

    def binary(self, i):
        return self._and("binary", i, "comparison", "arithmetic", "binary")

    def arithmetic(self, i):
        return self._and("arithmetic", i, "arithmetic")

    def prefix(self, i):
        return self._and("prefix", i, "prefix")

    def postfix(self, i):
        return self._and("postfix", i, "postfix")

    def statement(self, i):
        return self._and("statement", i, "statement")

    def program_declaration(self, i):
        return self._and("program_declaration", i, "declaration")


class Unreadable(Exception):
    pass


def shown(items):
    return "".join(chr(c) if isinstance(c, int) else "<%s>" % c.name for c in items)


def lex(items, marks, texts):
    """[(token, payload)]; marks: {symbol: (category, name)}, texts: {(symbols): (token type, name)}"""
    out = []
    i, n = 0, len(items)
    while i < n:
        c = items[i]
        if c in (32, 9, 10, 13):
            i += 1
            continue
        word = lambda x: not isinstance(x, int) and x not in marks or x in WORD
        if not isinstance(c, int) and c in marks:
            if i + 1 < n and (word(items[i + 1]) or items[i + 1] in marks) or i > 0 and word(items[i - 1]):
                raise Unreadable("nothing separates %r from its neighbour" % c.name)
            out.append(("#" + marks[c][0], marks[c][1]))
            i += 1
            continue
        if word(c):
            j = i
            while j < n and word(items[j]):
                j += 1
            w = tuple(items[i:j])
            if all(isinstance(x, int) for x in w) and "".join(map(chr, w)) in KEYWORDS:
                out.append((KEYWORDS["".join(map(chr, w))], None))
            elif tuple(map(repr, w)) in texts:
                out.append(texts[tuple(map(repr, w))])
            else:
                raise Unreadable("%r is no word of the program" % shown(w))
            i = j
            continue
        rest = ""
        for x in items[i:i + 3]:
            if not isinstance(x, int):
                break
            rest += chr(x)
        if rest.startswith("//") or rest.startswith("/*"):
            raise Unreadable("a comment begins within the code")
        for o in OPERATORS:
            if rest.startswith(o):
                break
        else:
            raise Unreadable("%r begins no token" % rest[:1])
        out.append((FIXED[o], None))
        i += len(o)
    return out


def read(tokens):
    """the one tree the grammar gives the tokens"""
    g = Marked([frozenset([t]) for t, _ in tokens])
    trees = []
    for e, t in g.p("program", 0):
        if e == len(tokens) and t not in trees:
            trees.append(t)
    if not trees:
        at = g.far
        raise Unreadable("the grammar does not allow %s after %s" % ("the end" if at >= len(tokens) else spell(tokens[at]), " ".join(spell(t) for t in tokens[max(0, at - 6):at]) or "the beginning"))
    if len(trees) > 1:
        raise Unreadable("it can be read in several ways")
    return norm(trees[0], tokens)


def spell(t):
    return "%s" % (t[1] or SPELL.get(t[0], t[0]))


def norm(t, tokens):
    if t is None:
        return None
    kind, pos, attrs, children = t
    name = lambda a: tokens[attrs[a]][1]
    d = dict(children) if children and len(children[0]) == 2 and isinstance(children[0][0], str) else None
    sub = lambda k: norm(d[k], tokens)
    if kind == "mark":
        return ("mark", tokens[pos][1])
    if kind in ("Program", "Block_Statement"):
        return (kind,) + tuple(norm(c, tokens) for c in children)
    if kind in ("Const", "Let"):
        return (kind, name("name"), sub("type"), sub("initializer"))
    if kind == "Function":
        ps = d["parameters"]
        return (kind, name("name"), () if ps is None else tuple((tokens[p[2]["name"]][1], norm(dict(p[3])["type"], tokens)) for p in ps[3]),
                sub("return_type"), sub("requires_clause"), sub("body"))
    if kind == "Type":
        return (kind, attrs["type"], sub("width"))
    if kind == "Assignment":
        return (kind, name("name"), sub("expression"))
    if kind == "Function_Call_Expression":
        return (kind, name("function"), attrs["is_statement"]) + tuple(norm(c, tokens) for c in children)
    if kind in ("Binary_Expression", "Prefix_Expression"):
        return (kind, tokens[attrs["op"]][0]) + tuple(norm(c, tokens) for _, c in children)
    if kind == "Id_Expression":
        return (kind, name("identifier"))
    if kind == "Literal":
        return (kind, name("literal"))
    if kind in ("Break", "Continue"):
        return (kind,)
    return (kind,) + tuple(norm(c, tokens) for k, c in children if k != "annotations")


def want(x):
    """what has to be read for a tree of X"""
    if x is None:
        return None
    k, d = x.k, x.d
    kids = [want(c) for c in x.kids]
    if k == "opaque":
        return ("mark", d["name"])
    if k == "program":
        return ("Program",) + tuple(kids)
    if k == "block":
        return ("Block_Statement",) + tuple(kids)
    if k in ("constdecl", "letdecl"):
        return ("Const" if k == "constdecl" else "Let", d["name"]) + tuple(kids)
    if k == "function":
        n = len(d["params"])
        return ("Function", d["name"], tuple(zip(d["names"], kids[:n])), kids[n], kids[n + 1], kids[n + 2])
    if k == "type":
        return ("Type", {INT: "Int", BOOL: "Bool", VOID: "Void", UINT: "Uint"}[d["t"][0]], kids[0])
    if k == "assign":
        return ("Assignment", d["name"], kids[0])
    if k == "call":
        return ("Function_Call_Expression", d["name"], d["statement"]) + tuple(kids)
    if k == "bin":
        return ("Binary_Expression", TOKEN[d["op"]]) + tuple(kids)
    if k == "un":
        return ("Prefix_Expression", UTOKEN[d["op"]]) + tuple(kids)
    if k in ("id", "literal"):
        return ("Id_Expression" if k == "id" else "Literal", d["name"])
    if k == "control":
        return ("Return_Statement", kids[0]) if d["what"] == "return" else (d["what"].capitalize(),)
    return ({"if": "If_Expression", "conv": "Conversion_Expression", "ifs": "If_Statement", "while": "While_Statement", "assert": "Static_Assert"}[k],) + tuple(kids)


# ------------------------------------------------------------------------------------------------ building trees
class Code(Maker):
    """trees with names, literals and opaque parts"""

    def __init__(self, run, E, length):
        Maker.__init__(self, run, E)
        self.length = length
        self.texts, self.marks, self.opaques = {}, {}, {}
        self.n = 0

    def text(self, tok="identifier"):
        self.n += 1
        name = "n%d" % self.n
        l = [Sym("%s_%d" % (name, i), 8, True) for i in range(self.length)]
        self.texts[tuple(map(repr, l))] = (tok, name)
        return name, StrObj(None, CharSeq(l))

    def named(self, x, accessor="get_name", tok="identifier"):
        n, s = self.text(tok)
        set_behind(self.run, self.T.body(x.cell).v, accessor, s)
        x.d["name"] = n
        return x

    def opaque(self, x, cat):
        self.n += 1
        n = "part%d" % self.n
        s = Sym(n, 8, True)
        x.k, x.kids = "opaque", ()
        x.d["name"] = n
        self.marks[s] = (cat, n)
        self.opaques[id(x.cell)] = s
        return x

    # whole nodes
    def id(self):
        return self.named(self.x("id", "Id_Expression", "id"), "get_identifier")

    def lit(self):
        return self.named(self.x("literal", "Literal", "literal"), "get_literal", "decimal_literal")

    def constdecl(self, t, init):
        return self.named(Maker.constdecl(self, t, init))

    def let(self, t, init):
        return self.named(Maker.let(self, t, init))

    def call(self, args, statement=False):
        x = self.x("call", "Function_Call_Expression", "call", tuple(args), list(args), statement=bool(statement))
        set_behind(self.run, self.T.body(x.cell).v, "is_statement", 1 if statement else 0)
        return self.named(x)

    def assign(self, e):
        return self.named(self.x("assign", "Assignment", "assign", (e,), (e,)))

    def control(self, what, e=None):
        x = self.x("control", "Control_Statement", what, (e,), (e,), what=what)
        set_behind(self.run, self.T.body(x.cell).v, "get_type", self.P.enum("ast::Control_Statement_Type")[what + "_"])
        return x

    def type(self, t, width=None):
        if t[0] == UINT and width is None:
            width = self.e("id")
        x = self.x("type", "Type", "type", (width,), [width], t=t)
        set_behind(self.run, self.T.body(x.cell).v, "get_type", self.E.tt[t[0]])
        return x

    def fn(self, params, rt, body, requires=None):
        x = self.named(Maker.fn(self, "f", params, rt, body, requires))
        x.d["names"] = []
        for c in x.d["cells"]:
            n, s = self.text()
            set_behind(self.run, c.v, "get_name", s)
            x.d["names"].append(n)
        return x

    # opaque parts
    def e(self, kind):
        """opaque expression"""
        if kind in TOKEN:
            x = self.bin(kind, None, None)
        elif kind in UTOKEN:
            x = self.un(kind, None)
        else:
            x = self.x("", {"if": "If_Expression", "conversion": "Conversion_Expression", "call": "Function_Call_Expression", "id": "Id_Expression", "literal": "Literal"}[kind], kind)
            if kind == "call":
                set_behind(self.run, self.T.body(x.cell).v, "is_statement", 0)
        return self.opaque(x, category(kind))

    def bin(self, op, l, r):
        if l is None:
            return self.wrap(type(self).X("bin", operator_node(self, "Binary_Expression", TOKEN[op]), (), op=op))
        return Maker.bin(self, op, l, r)

    def un(self, op, e):
        if e is None:
            return self.wrap(type(self).X("un", operator_node(self, "Prefix_Expression", UTOKEN[op]), (), op=op))
        return Maker.un(self, op, e)

    def s(self, kind):
        """opaque statement"""
        x = self.x("", kind, kind)
        if kind == "Function_Call_Expression":
            set_behind(self.run, self.T.body(x.cell).v, "is_statement", 1)
        return self.opaque(x, "statement")

    def d(self, kind):
        """opaque declaration"""
        return self.opaque(self.x("", kind, kind), "declaration")

    def in_function(self, *statements):
        return self.program(self.fn([], VOIDT, self.blk(*statements)))

    def in_const(self, e):
        return self.program(self.constdecl(None, e))


from .analysis import X  # noqa
Code.X = X


def run_case(ctx, env, case, limit=2000):
    key, build, indent, length = case
    P, E, f, app = ctx.p, env["E"], env["f"], env["append"]
    state = {}

    def get_root(run, e, obj, args):
        return ptr(state["root"])

    def is_opaque(run, c):
        return id(c) in state["mk"].opaques

    def summary(run, c, e):
        invoke(run, app, [state["mk"].opaques[id(c)]], state["out"])
        return mk_result(run, e["t"])
    hooks = {NS + "Analyzed_Program::get_root": get_root}
    hooks.update(pass_hook(is_opaque, summary, "Generator_Error"))

    def entry(run):
        mk = state["mk"] = Code(run, E, length)
        x = build(mk)
        state["root"] = x.cell
        out = state["out"] = Cell(construct(run, BMD + "Code_String", [None], [Ptr(Cell(Ext("std::pmr::memory_resource", "memory")))]))
        o = Obj(P.record(BMD + "Code_Options"), "options")
        for n in ("break_after_function", "break_after_if", "always_parenthesize_subexpressions"):
            run.field(o, n).v = Sym(n, 1, False)
        run.field(o, "indent_char").v, run.field(o, "indent_size").v = indent
        prog = Cell(Obj(P.record(NS + "Analyzed_Program"), "program"))
        st, err = result_state(run, invoke(run, f, [out, prog, env["bms"], Cell(o)]))
        if not ctx.ok(st == "ok", key + ":failed", "%s: no code is generated [%s]" % (key, explain(run, 6))):
            return
        r = method(run, out, "get_text")
        items = r.items() if isinstance(r, StrObj) else None
        if items is None:
            raise AnalysisBroken("%s: the text is not known: %r" % (key, r))
        items = [run.concrete(c) for c in items]
        try:
            got = read(lex(items, mk.marks, mk.texts))
        except Unreadable as e:
            ctx.ok(False, key + ":unreadable", "%s: the code generated is no program: %s: %s [%s]" % (key, e, shown(items).strip(), explain(run, 6)))
            return
        ctx.ok(got == want(x), key + ":other program", "%s: %s is read as %s instead of %s" % (key, shown(items).strip(), got, want(x)))
        state["n"] = state.get("n", 0) + 1

    n = 0
    for p in explore(P, entry, hooks, {"unroll": 400, "rec_limit": 16}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.run.notes and p.kind != "return":
            raise AnalysisBroken("%s: %s" % (key, p.run.notes[:2]))
        if p.kind != "return":
            ctx.ok(False, key + ":crash", "%s: generation ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("programs")
    ctx.count("paths", n)


def cases(thorough):
    """(name, builder, (indent character, size), length of names)"""
    out = []
    indents = [(32, 4), (9, 1), (32, 0), (32, 1)]

    def add(key, build, all_indents=False):
        k = len(out)
        for i, ind in enumerate(indents):
            if all_indents or thorough or i == k % len(indents):
                out.append((key, build, ind, 1 + (k + i) % 3))

    # expressions
    for k in EXPR_KINDS:
        add("const = " + k, lambda b, k=k: b.in_const(b.e(k)))
    add("id", lambda b: b.in_const(b.id()))
    add("literal", lambda b: b.in_const(b.lit()))
    for op in TOKEN:
        for k in EXPR_KINDS:
            add("%s of %s" % (op, k), lambda b, op=op, k=k: b.in_const(b.bin(op, b.e(k), b.e("id"))))
            add("%s and %s" % (op, k), lambda b, op=op, k=k: b.in_const(b.bin(op, b.e("id"), b.e(k))))
    for op in UTOKEN:
        for k in EXPR_KINDS:
            add("%s of %s" % (op, k), lambda b, op=op, k=k: b.in_const(b.un(op, b.e(k))))
    for k in EXPR_KINDS:
        add("if: left " + k, lambda b, k=k: b.in_const(b.iff(b.e(k), b.e("id"), b.e("id"))))
        add("if: condition " + k, lambda b, k=k: b.in_const(b.iff(b.e("id"), b.e(k), b.e("id"))))
        add("if: right " + k, lambda b, k=k: b.in_const(b.iff(b.e("id"), b.e("id"), b.e(k))))
        add("conversion of " + k, lambda b, k=k: b.in_const(b.conv(b.e(k), INTT)))
        add("width " + k, lambda b, k=k: b.in_const(b.conv(b.e("id"), b.type((UINT, 0), b.e(k)))))
        add("argument " + k, lambda b, k=k: b.in_const(b.call([b.e(k)])))
        add("arguments " + k, lambda b, k=k: b.in_const(b.call([b.e("id"), b.e(k), b.e("if")])))
    for t in (BOOLT, INTT, VOIDT, (UINT, 0)):
        add("conversion to " + t[0], lambda b, t=t: b.in_const(b.conv(b.e("id"), t)))
    add("no arguments", lambda b: b.in_const(b.call([])))
    add("call in call", lambda b: b.in_const(b.call([b.call([b.e("id")]), b.call([])])))
    for o in ("logical_and", "equals", "binary_minus", "bitwise_or"):
        for i in ("logical_and", "equals", "binary_minus", "bitwise_or"):
            add("%s of %s of unary" % (o, i), lambda b, o=o, i=i: b.in_const(b.bin(o, b.bin(i, b.un("unary_minus", b.un("unary_minus", b.e("id"))), b.lit()), b.bin(i, b.id(), b.un("logical_not", b.e("call"))))))

    # statements
    ts = (None, INTT, BOOLT, (UINT, 0))
    for t in ts:
        n = t and t[0]
        for k in FEW_EXPR:
            add("let %s = %s" % (n, k), lambda b, t=t, k=k: b.in_function(b.let(t, b.e(k))), k == "id")
            add("local const %s = %s" % (n, k), lambda b, t=t, k=k: b.in_function(b.constdecl(t, b.e(k))), k == "id")
            add("const %s = %s" % (n, k), lambda b, t=t, k=k: b.program(b.constdecl(t, b.e(k))))
        if t:
            add("let " + n, lambda b, t=t: b.in_function(b.let(t, None)), True)
    for k in FEW_EXPR:
        add("assert " + k, lambda b, k=k: b.program(b.static_assert(b.e(k))))
        add("local assert " + k, lambda b, k=k: b.in_function(b.static_assert(b.e(k))), k == "id")
        add("assign " + k, lambda b, k=k: b.in_function(b.assign(b.e(k))), k == "id")
        add("return " + k, lambda b, k=k: b.in_function(b.control("return", b.e(k))), k == "id")
        add("if " + k, lambda b, k=k: b.in_function(b.if_(b.e(k), b.blk())), k == "id")
        add("while " + k, lambda b, k=k: b.in_function(b.while_(b.e(k), b.blk())), k == "id")
        add("call " + k, lambda b, k=k: b.in_function(b.call([b.e(k)], True)), k == "id")
    for w in ("break", "continue", "return"):
        add(w, lambda b, w=w: b.in_function(b.control(w)), True)
    add("call statement", lambda b: b.in_function(b.call([], True)), True)
    add("call statement, 3", lambda b: b.in_function(b.call([b.e("if"), b.call([]), b.e("conversion")], True)), True)
    add("call before", lambda b: b.in_function(b.call([], True), b.s("Let"), b.call([b.call([])], True), b.s("Block_Statement")), True)

    for k in STMT_KINDS:
        add("block: " + k, lambda b, k=k: b.in_function(b.s(k)), True)
        for l in STMT_KINDS:
            add("block: %s, %s" % (k, l), lambda b, k=k, l=l: b.in_function(b.s(k), b.s(l)))
        add("block in block: " + k, lambda b, k=k: b.in_function(b.blk(b.s(k)), b.blk(), b.s(k)))
        add("while block: " + k, lambda b, k=k: b.in_function(b.while_(b.e("id"), b.blk(b.s(k))), b.s(k)))
        add("if block: " + k, lambda b, k=k: b.in_function(b.if_(b.e("id"), b.blk(b.s(k))), b.s(k)), True)
        add("else: " + k, lambda b, k=k: b.in_function(b.if_(b.e("id"), b.blk(), b.blk(b.s(k))), b.s(k)), True)
    add("empty block", lambda b: b.in_function(), True)
    add("blocks", lambda b: b.in_function(b.blk(b.blk(b.blk(b.s("Let")), b.blk()), b.s("Let")), b.blk()), True)
    add("else if", lambda b: b.in_function(b.if_(b.e("id"), b.blk(), b.if_(b.e("id"), b.blk(b.s("Let"))))), True)
    add("else if else", lambda b: b.in_function(b.if_(b.e("equals"), b.blk(b.s("Let")), b.if_(b.e("id"), b.blk(), b.blk(b.s("Let")))), b.s("Let")), True)
    add("else if else if else", lambda b: b.in_function(b.if_(b.e("id"), b.blk(), b.if_(b.e("id"), b.blk(), b.if_(b.e("id"), b.blk(), b.blk())))), True)
    add("nested if", lambda b: b.in_function(b.if_(b.e("id"), b.blk(b.if_(b.e("id"), b.blk(), b.blk(b.s("Let")))), b.blk(b.if_(b.e("id"), b.blk())))), True)
    add("nested while", lambda b: b.in_function(b.while_(b.e("id"), b.blk(b.while_(b.e("id"), b.blk(b.control("break"))), b.control("continue")))), True)

    # functions and programs
    for t in (BOOLT, INTT, VOIDT, (UINT, 0)):
        add("returning " + t[0], lambda b, t=t: b.program(b.fn([], t, b.blk())), True)
        add("parameter " + t[0], lambda b, t=t: b.program(b.fn([t], t, b.blk(b.s("Let")))), True)
        add("parameters " + t[0], lambda b, t=t: b.program(b.fn([INTT, t, (UINT, 0)], t, b.blk())), True)
    for k in EXPR_KINDS:
        add("requires " + k, lambda b, k=k: b.program(b.fn([], VOIDT, b.blk(), b.e(k))), k == "id")
        add("return width " + k, lambda b, k=k: b.program(b.fn([b.type((UINT, 0), b.e(k))], b.type((UINT, 0), b.e(k)), b.blk(), b.e("equals"))))
    add("requires, body", lambda b: b.program(b.fn([INTT, BOOLT], (UINT, 0), b.blk(b.s("Let"), b.control("return", b.e("id"))), b.e("equals"))), True)
    for k in DECL_KINDS:
        add("program: " + k, lambda b, k=k: b.program(b.d(k)), True)
        for l in DECL_KINDS:
            for m in DECL_KINDS:
                add("program: %s, %s, %s" % (k, l, m), lambda b, k=k, l=l, m=m: b.program(b.d(k), b.d(l), b.d(m)))
    add("program", lambda b: b.program(b.constdecl(INTT, b.lit()), b.fn([INTT], INTT, b.blk(b.control("return", b.id()))), b.static_assert(b.id()), b.fn([], VOIDT, b.blk(b.call([b.id()], True)))), True)
    return out


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every analysed program and all options, the text generated is derived by the grammar in exactly one way, and that tree is the program's: same declarations, statements, expressions, "
             "names, literals, operators, types and clauses in the same places")
    E = Env(P)
    f = [g for g in P.by_q.get(BMD + "generate_code", []) if len(g["p"]) == 4]
    if len(f) != 1:
        raise AnalysisBroken("generate_code")
    app = [g for g in P.by_q[BMD + "Code_String::append"] if len(g["p"]) == 1 and P.strip(g["p"][0]["t"])["k"] == "int"]
    if len(app) != 1:
        raise AnalysisBroken("Code_String::append")
    env = {"E": E, "f": f[0], "append": app[0], "bms": P.enum("bmd::Code_Language")["bms"]}
    only = os.environ.get("BMSA_ONLY")
    todo = [c for c in cases(ctx.thorough) if not only or only in c[0]]
    parallel(ctx, [todo[i:i + 16] for i in range(0, len(todo), 16)], lambda c, part: [run_case(c, env, x) for x in part])
    if not only:
        ctx.need("programs", 1500)
