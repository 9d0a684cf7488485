"""C11: parsing. Token sequences with unknown tokens are parsed through the public entry point; acceptance, the tree, and the place and
kind of the error are compared, path by path, with an independent recognizer of the documented grammar which follows all alternatives."""
from ..lib import *  # noqa
from ..lib import Cell, SymStr, StrObj, VecObj, SpanObj, Obj, Ptr, NULL, Sym, construct, explain, explore, fn_by, invoke, method, parallel, result_state, AnalysisBroken
from .tokens import FIXED, KEYWORDS, CLASSES

COMMENTS = frozenset(["block_comment", "line_comment"])
INTS = frozenset(CLASSES["is_integer_literal"])
BOOLS = frozenset(["keyword_true", "keyword_false"])
UNARY = frozenset(CLASSES["is_unary_operator"])
ARITH = frozenset(CLASSES["is_arithmetic_operator"])
COMPARE = frozenset(CLASSES["is_comparison_operator"])
BINARY = frozenset(CLASSES["is_binary_operator"])


class Split(Exception):
    pass


class Grammar:
    """all derivations of the documented grammar over tokens given as sets of possible types.
    parse(nonterminal, i) yields (end, tree); trees are (kind, position, {attribute: value}, [children]) where positions, names and
    operators are token indices"""

    def __init__(self, sets):
        self.sets = sets
        self.memo = {}
        self.far = -1
        self.viable = set()

    def test(self, i, types):
        """is token i one of the types? remembers what was possible at the furthest place"""
        if i > self.far:
            self.far, self.viable = i, set()
        if i == self.far:
            self.viable |= types
        if i >= len(self.sets):
            return False
        s = self.sets[i]
        if s <= types:
            return True
        if not s & types:
            return False
        raise Split(i, types)

    def p(self, nt, i):
        k = (nt, i)
        if k not in self.memo:
            self.memo[k] = list(getattr(self, nt)(i))
        return self.memo[k]

    def t(self, i, *types):
        return [(i + 1, i)] if self.test(i, frozenset(types)) else []

    def seq(self, i, *parts):
        """parts: terminal name, set of terminals, "<nonterminal>", or ["optional parts"]"""
        out = [(i, ())]
        for x in parts:
            nxt = []
            for j, l in out:
                if isinstance(x, list):
                    nxt.append((j, l + (None,) * len(x)))
                    nxt += [(e, l + y) for e, y in self.seq(j, *x)]
                elif isinstance(x, frozenset):
                    nxt += [(e, l + (y,)) for e, y in self.t(j, *x)]
                elif x.startswith("<"):
                    nxt += [(e, l + (y,)) for e, y in self.p(x[1:-1], j)]
                else:
                    nxt += [(e, l + (y,)) for e, y in self.t(j, x)]
            out = nxt
        return out

    def many(self, i, item, sep=None):
        """one or more"""
        out = []
        todo = [(e, (y,)) for e, y in self.p(item, i)]
        while todo:
            e, l = todo.pop()
            out.append((e, l))
            for (k, _) in (self.t(e, sep) if sep else [(e, None)]):
                todo += [(f, l + (y,)) for f, y in self.p(item, k)]
        return out

    # --- declarations
    def program(self, i):
        for e, l in self.many(i, "program_declaration"):
            yield e, ("Program", l[0][1], {}, list(l))

    def program_declaration(self, i):
        return self.p("const_declaration", i) + self.p("function_declaration", i) + self.p("static_assertion", i)

    def const_declaration(self, i):
        for e, (a, k, n, _, ty, init, _) in self.seq(i, ["<annotations>"], "keyword_const", "identifier", ["colon", "<type>"], "<initializer>", "semicolon"):
            yield e, ("Const", k, {"name": n}, [("annotations", a), ("type", ty), ("initializer", init)])

    def let_declaration(self, i):
        for e, (a, k, n, _, ty, init, _) in self.seq(i, ["<annotations>"], "keyword_let", "identifier", ["colon", "<type>"], "<initializer>", "semicolon"):
            yield e, ("Let", k, {"name": n}, [("annotations", a), ("type", ty), ("initializer", init)])
        for e, (a, k, n, _, ty, _) in self.seq(i, ["<annotations>"], "keyword_let", "identifier", "colon", "<type>", "semicolon"):
            yield e, ("Let", k, {"name": n}, [("annotations", a), ("type", ty), ("initializer", None)])

    def initializer(self, i):
        return [(e, x) for e, (_, x) in self.seq(i, "assign", "<expression>")]

    def function_declaration(self, i):
        for e, (a, k, n, _, ps, _, _, ret, _, req, body) in self.seq(i, ["<annotations>"], "keyword_function", "identifier", "left_parenthesis", ["<parameters>"],
                                                                      "right_parenthesis", "right_arrow", "<type>", ["keyword_requires", "<expression>"], "<block>"):
            yield e, ("Function", k, {"name": n}, [("annotations", a), ("parameters", ps), ("return_type", ret), ("requires_clause", req), ("body", body)])

    def parameters(self, i):
        for e, l in self.many(i, "parameter", "comma"):
            yield e, ("Parameter_List", l[0][1], {}, list(l))

    def parameter(self, i):
        for e, (n, _, ty) in self.seq(i, "identifier", "colon", "<type>"):
            yield e, ("Parameter", n, {"name": n}, [("type", ty)])

    def static_assertion(self, i):
        for e, (k, x, _) in self.seq(i, "keyword_static_assert", "<parenthesized>", "semicolon"):
            yield e, ("Static_Assert", k, {}, [("expression", x)])

    def annotations(self, i):
        for e, l in self.many(i, "annotation"):
            yield e, ("Annotation_List", l[0][1], {}, list(l))

    def annotation(self, i):
        for e, (at, n, p, l, _) in self.annotation_forms(i):
            yield e, ("Annotation", at, {"name": n}, list(l or ()))

    def annotation_forms(self, i):
        out = []
        for e, (at, n) in self.seq(i, "at", "identifier"):
            out.append((e, (at, n, None, (), None)))
            for f, (p, q) in self.seq(e, "left_parenthesis", "right_parenthesis"):
                out.append((f, (at, n, p, (), q)))
            for f, (p, l, q) in self.seq(e, "left_parenthesis", "<annotation_arguments>", "right_parenthesis"):
                out.append((f, (at, n, p, l, q)))
        return out

    def annotation_arguments(self, i):
        return self.many(i, "annotation_argument", "comma")

    def annotation_argument(self, i):
        for e, (k, _, v) in self.seq(i, ["identifier", "assign"], frozenset(["string_literal"]) | INTS | BOOLS):
            yield e, ("Annotation_Argument", v if k is None else k, {"key": k, "value": v}, [])

    # --- statements
    def statement(self, i):
        out = []
        for n in ("let_declaration", "const_declaration", "static_assertion", "assignment", "call_statement", "simple", "return_statement", "if_statement", "while_statement", "block"):
            out += self.p(n, i)
        return out

    def assignment(self, i):
        for e, (a, n, _, x, _) in self.seq(i, ["<annotations>"], "identifier", "assign", "<expression>", "semicolon"):
            yield e, ("Assignment", n, {"name": n}, [("annotations", a), ("expression", x)])

    def call_statement(self, i):
        for e, (c, _) in self.seq(i, "<call>", "semicolon"):
            yield e, (c[0], c[1], dict(c[2], is_statement=True), c[3])

    def simple(self, i):
        for e, (k, _) in self.seq(i, "keyword_break", "semicolon"):
            yield e, ("Break", k, {}, [])
        for e, (k, _) in self.seq(i, "keyword_continue", "semicolon"):
            yield e, ("Continue", k, {}, [])

    def return_statement(self, i):
        for e, (k, x, _) in self.seq(i, "keyword_return", ["<expression>"], "semicolon"):
            yield e, ("Return_Statement", k, {}, [("expression", x)])

    def if_statement(self, i):
        for e, (a, k, c, b, _, els) in self.seq(i, ["<annotations>"], "keyword_if", "<expression>", "<block>", ["keyword_else", "<else_block>"]):
            yield e, ("If_Statement", k, {}, [("annotations", a), ("condition", c), ("if_block", b), ("else_block", els)])

    def else_block(self, i):
        return self.p("if_statement", i) + self.p("block", i)

    def while_statement(self, i):
        for e, (a, k, c, b) in self.seq(i, ["<annotations>"], "keyword_while", "<expression>", "<block>"):
            yield e, ("While_Statement", k, {}, [("annotations", a), ("condition", c), ("block", b)])

    def block(self, i):
        for e, (b, _) in self.seq(i, "left_brace", "right_brace"):
            yield e, ("Block_Statement", b, {}, [])
        for e, (b,) in self.seq(i, "left_brace"):
            for f, l in self.many(e, "statement"):
                for g, _ in self.t(f, "right_brace"):
                    yield g, ("Block_Statement", b, {}, list(l))

    # --- expressions
    def expression(self, i):
        for e, (x, _, ty) in self.seq(i, "<prefix>", "keyword_as", "<type>"):
            yield e, ("Conversion_Expression", x[1], {}, [("expression", x), ("target_type", ty)])
        for r in self.p("if_expression", i):
            yield r

    def if_expression(self, i):
        for e, (l, _, c, _, r) in self.seq(i, "<binary>", ["keyword_if", "<binary>", "keyword_else", "<if_expression>"]):
            yield e, l if c is None else ("If_Expression", l[1], {}, [("left", l), ("condition", c), ("right", r)])

    def binary(self, i):
        out = []
        for e, (l, op, r) in self.seq(i, "<arithmetic>", COMPARE, "<arithmetic>"):
            out.append((e, ("Binary_Expression", op, {"op": op}, [("left", l), ("right", r)])))
        for e, (l, op, r) in self.seq(i, "<prefix>", [BINARY, "<prefix>"]):
            x = l if op is None else ("Binary_Expression", op, {"op": op}, [("left", l), ("right", r)])
            if (e, x) not in out:
                out.append((e, x))
        return out

    def arithmetic(self, i):
        for e, (l, op, r) in self.seq(i, "<prefix>", [ARITH, "<prefix>"]):
            yield e, l if op is None else ("Binary_Expression", op, {"op": op}, [("left", l), ("right", r)])

    def prefix(self, i):
        for r in self.p("postfix", i):
            yield r
        for e, (op, x) in self.seq(i, UNARY, "<postfix>"):
            yield e, ("Prefix_Expression", op, {"op": op}, [("expression", x)])

    def postfix(self, i):
        for r in self.p("call", i) + self.p("parenthesized", i):
            yield r
        for e, n in self.t(i, "identifier"):
            yield e, ("Id_Expression", n, {"identifier": n}, [])
        for e, n in self.t(i, *(INTS | BOOLS)):
            yield e, ("Literal", n, {"literal": n, "type": n}, [])

    def call(self, i):
        for e, (n, _) in self.seq(i, "identifier", "left_parenthesis"):
            for f, l in [(e, ())] + self.many(e, "expression", "comma"):
                for g, (_, a) in self.seq(f, "right_parenthesis", ["<annotations>"]):
                    yield g, ("Function_Call_Expression", n, {"function": n, "is_statement": False, "annotations": a}, list(l))

    def parenthesized(self, i):
        return [(e, x) for e, (_, x, _) in self.seq(i, "left_parenthesis", "<expression>", "right_parenthesis")]

    def type(self, i):
        for n in ("Void", "Bool", "Int"):
            for e, k in self.t(i, "keyword_" + n.lower()):
                yield e, ("Type", k, {"type": n}, [("width", None)])
        for e, (k, x) in self.seq(i, "keyword_uint", "<parenthesized>"):
            yield e, ("Type", k, {"type": "Uint"}, [("width", x)])


def reference(sets):
    """[(narrowed sets, tree or None, furthest, viable)] for every class of token sequences the grammar distinguishes"""
    todo = [list(sets)]
    while todo:
        s = todo.pop()
        try:
            kept = []
            for k, x in enumerate(s):
                if x <= COMMENTS:
                    continue
                if x & COMMENTS:
                    raise Split(k, COMMENTS)
                kept.append(k)
            g = Grammar([s[k] for k in kept])
            try:
                r = g.p("program", 0)
            except Split as sp:
                raise Split(kept[sp.args[0]], sp.args[1])
            full = [t for e, t in r if e == len(kept)]
            trees = []
            for t in full:
                if t not in trees:
                    trees.append(t)
            if len(trees) > 1:
                raise AnalysisBroken("the reference grammar is ambiguous: %r" % (s,))
            yield s, trees[0] if trees else None, g.far, g.viable, kept
        except Split as sp:
            i, types = sp.args
            todo.append(s[:i] + [s[i] & types] + s[i + 1:])
            todo.append(s[:i] + [s[i] - types] + s[i + 1:])


FIELDS = {"Const": ("annotations", "type", "initializer"), "Let": ("annotations", "type", "initializer"), "Static_Assert": ("expression",), "Parameter": ("type",),
          "Function": ("annotations", "parameters", "return_type", "requires_clause", "body"), "Type": ("width",), "Return_Statement": ("expression",),
          "If_Statement": ("annotations", "condition", "if_block", "else_block"), "While_Statement": ("annotations", "condition", "block"),
          "Assignment": ("annotations", "expression"), "Conversion_Expression": ("expression", "target_type"), "If_Expression": ("left", "condition", "right"),
          "Binary_Expression": ("left", "right"), "Prefix_Expression": ("expression",), "Annotation_Argument": (), "Break": (), "Continue": (), "Id_Expression": (),
          "Literal": ()}


class Reader:
    """compares the tree built by the code with the reference's"""

    def __init__(self, run, prog, spans, sets, kept, names):
        self.run, self.prog, self.spans, self.sets, self.kept, self.names = run, prog, spans, sets, kept, names
        self.seen = set()

    def token(self, i):
        return self.kept[i]

    def num(self, v):
        return self.run.concrete(v.v if isinstance(v, Cell) else v)

    def text(self, v, i, quoted=False):
        k = self.token(i)
        b, n = self.spans[k]
        if quoted:
            b, n = b + 1, n - 2
        return isinstance(v, StrObj) and not isinstance(v.base, str) and (v.off, v.length) == (b, n)

    def node(self, handle):
        h = self.num(handle)
        if h in self.seen:
            return None, None
        self.seen.add(h)
        v = method(self.run, self.prog, "get_node", [h])
        if not isinstance(v, Cell):
            v = Cell(v)
        k = self.num(v.v.idx)
        return v.v.cells[k].v.rec.split("::")[-1], v.v.cells[k].v

    def kind_of(self, v, i):
        """is v the type of token i?"""
        x = self.num(v)
        if isinstance(x, int):
            return {self.names[x]} >= self.sets[self.token(i)]
        return repr(x) == "t%d" % self.token(i)

    def compare(self, handle, want, where):
        null = self.null
        if want is None:
            return None if self.num(handle) == null else "%s: present although there is none in the source" % where
        if self.num(handle) == null:
            return "%s: missing" % where
        rec, o = self.node(handle)
        if rec is None:
            return "%s: node occurs twice" % where
        kind, pos, attrs, children = want
        if rec != kind:
            return "%s: is a %s instead of a %s" % (where, rec, kind)
        where += "/" + kind
        run = self.run
        b = self.num(run.field(run.field(o, "pos").v, "begin"))
        n = self.num(run.field(run.field(o, "pos").v, "length"))
        if (b, n) != self.spans[self.token(pos)]:
            return "%s: its position is %r instead of that of token %d" % (where, b, self.token(pos))
        for a, i in attrs.items():
            if a == "annotations":
                r = self.compare(method(run, Cell(o), "get_annotations"), i, where + ".annotations")
                if r:
                    return r
                continue
            v = run.field(o, a).v
            if a in ("name", "identifier", "function", "literal"):
                good = self.text(v, i)
            elif a == "is_statement":
                good = self.num(v) in (int(i), bool(i))
            elif a in ("op",) or kind == "Literal" and a == "type":
                good = self.kind_of(v, i)
            elif kind == "Type":
                good = self.num(v) == self.type_types[i]
            elif a == "key":
                good = self.text(v, i) if i is not None else isinstance(v, StrObj) and v.concrete() == ""
            elif a == "value":
                s = self.sets[self.token(i)]
                good = self.text(v, i, s == {"string_literal"}) and self.kind_of(run.field(o, "value_type").v, i)
                if not s == {"string_literal"} and "string_literal" in s:
                    good = False
            else:
                raise AnalysisBroken("attribute " + a)
            if not good:
                return "%s: its %s is not that of token %d" % (where, a, self.token(i) if isinstance(i, int) else -1)
        if kind in FIELDS:
            l = method(run, Cell(o), "get_children")
            for k, nm in enumerate(FIELDS[kind]):
                r = self.compare(run.elem(l, k), dict(children)[nm], where + "." + nm)
                if r:
                    return r
        else:
            # lists
            l = method(run, Cell(o), "get_arguments" if kind == "Function_Call_Expression" else "get_children")
            n = self.num(run.length_of(l) if hasattr(run, "length_of") else l.length)
            if n != len(children):
                return "%s: has %r elements instead of %d" % (where, n, len(children))
            for k, c in enumerate(children):
                r = self.compare(run.elem(l, k), c, "%s[%d]" % (where, k))
                if r:
                    return r
        return None


def run_case(ctx, env, key, tokens, limit=100000):
    """tokens: type name or None (any)"""
    P, f, tt, names = ctx.p, env["f"], env["tt"], env["names"]
    every = frozenset(tt)
    spans = [(7 * i, 5) for i in range(len(tokens))]
    state = {}

    def entry(run):
        state["phase"] = "code"
        v = VecObj(None, env["token"], len(tokens))
        syms = []
        for i, t in enumerate(tokens):
            o = Obj(env["token_rec"])
            pos = Obj(env["span_rec"])
            for n, x in (("line", i), ("column", 3), ("begin", spans[i][0]), ("length", spans[i][1])):
                run.field(pos, n).v = x
            run.field(o, "pos").v = pos
            ty = tt[t] if t is not None else Sym("t%d" % i, 32, True, enum=tuple(sorted(tt.values())))
            run.field(o, "type").v = ty
            syms.append(ty)
            v.elems[i] = Cell(o)
        src = StrObj(None, SymStr("source", 7 * len(tokens) + 5))
        prog = Cell(construct(run, "bms::Parsed_Program", [None, None], [src, Ptr(Cell(Obj(None)))]))
        r = invoke(run, f, [prog, SpanObj(None, v, 0, len(tokens))])
        state["phase"] = "rules"
        st, err = result_state(run, r)
        sets = []
        for ty in syms:
            c = run.concrete(ty)
            if isinstance(c, int):
                sets.append(frozenset([names[c]]))
            else:
                d = run.facts.domain(c)
                sets.append(frozenset(n for n, x in tt.items() if d.has(x)))
        for s, tree, far, viable, kept in reference(sets):
            ctx.count("classes")
            shown = " ".join(show(x) for x in s)
            if tree is not None:
                if not ctx.ok(st == "ok", key + ":rejected", "%s: rejected although the grammar derives it" % shown):
                    continue
                rd = Reader(run, prog, spans, s, kept, names)
                rd.null, rd.type_types = env["null"], env["types"]
                why = rd.compare(method(run, prog, "get_root_handle"), tree, "root")
                ctx.ok(not why, key + ":tree", "%s: %s" % (shown, why))
                continue
            if not ctx.ok(st == "err", key + ":accepted", "%s: accepted although the grammar does not derive it" % shown):
                continue
            ctx.count("errors")
            far_tok = kept[far] if far < len(kept) else None
            ft = run.field(err, "fail_token").v
            b = run.concrete(run.field(run.field(ft, "pos").v, "begin").v)
            ln = run.concrete(run.field(run.field(ft, "pos").v, "length").v)
            at = None if ln == 0 else b // 7
            if at != far_tok:
                # parsing decides for a comparison when it sees one ahead and then reports the earlier, unsuitable operator
                ahead = [k for k in range(len(s)) if s[k] <= COMPARE]
                good = at is not None and s[at] <= BINARY - ARITH - COMPARE | ARITH and any(k > at for k in ahead) and (far_tok is None or at < far_tok)
                ctx.ok(good, key + ":error place", "%s: the error is reported at token %r instead of token %r" % (shown, at, far_tok))
                continue
            exp = run.field(err, "expected_tokens").v
            n = run.concrete(exp.length)
            got = set(names[run.concrete(run.elem(exp, k).v)] for k in range(n))
            ctx.ok(got and got <= viable, key + ":expected tokens", "%s: the error lists %s as expected, but possible at token %r is %s" % (
                shown, sorted(got), at, sorted(viable)[:12]))

    n = 0
    for p in explore(P, entry, {}, {"unroll": 400, "rec_limit": 60, "max_depth": 900}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.run.notes and p.kind != "return":
            raise AnalysisBroken("%s: %s" % (key, p.run.notes[:2]))
        if p.kind != "return":
            if state["phase"] != "code":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: parsing ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("token sequences")
    ctx.count("paths", n)


SPELL = {v: k for k, v in list(FIXED.items()) + list(KEYWORDS.items())}


def show(s):
    if len(s) == 1:
        n = next(iter(s))
        return SPELL.get(n, n)
    return "?" if len(s) > 30 else "[%s]" % "|".join(sorted(SPELL.get(n, n) for n in s)[:6])


def lex(text):
    out = []
    for w in text.split():
        if w == "?":
            out.append(None)
        elif w in FIXED:
            out.append(FIXED[w])
        elif w in KEYWORDS:
            out.append(KEYWORDS[w])
        elif w == "/**/":
            out.append("block_comment")
        elif w == "//":
            out.append("line_comment")
        elif w.startswith('"'):
            out.append("string_literal")
        elif w.startswith("0x"):
            out.append("hexadecimal_literal")
        elif w[0].isdigit():
            out.append("decimal_literal")
        else:
            out.append("identifier")
    return out


EXPRESSIONS = ["x", "1", "0x1", "true", "( x )", "( ( x ) )", "- x", "! ( x )", "~ f ( )", "x + y", "x && y", "x << 1", "x == y", "x + 1 == y", "x == y * z", "- x % 1 < ~ y / z",
               "( x == y )", "( x == y ) && ( z < 1 )", "( x ) && ( y == z )", "x as Int", "- x as Bool", "( x ) as Uint ( 8 )", "( x + y ) as Uint ( n + 1 )", "x if y else z",
               "x if y == z else w", "x if y else z == w", "x == y if z else w", "x if y else z if v else w", "x + y if z && w else - v", "( x as Int ) + 1",
               "f ( )", "f ( x )", "f ( x , y )", "f ( x , y == z )", "f ( x == y , z )", "f ( x as Int , y if z else w )", "f ( g ( x ) , h ( ) )", "f ( x ) @ inline",
               "f ( ) @ unroll ( 1 ) == x", "f ( x ) + f ( y )", "( f ( x ) )", "/**/ x /**/ + // y //", "f /**/ ( x // , y )"]
STATEMENTS = ["let x = 1 ;", "let x : Int ;", "let x : Uint ( 8 ) = y ;", "const x = y ;", "const x : Bool = true ;", "static_assert ( x ) ;", "x = y ;", "f ( ) ;", "f ( x , y ) ;",
              "break ;", "continue ;", "return ;", "return x ;", "return x as Int ;", "if x { }", "if x { } else { }", "if x { } else if y { } else { z = 1 ; }", "if x { } else @ a ( 1 ) if y { }", "while x { }",
              "while x == y { x = z ; }", "{ }", "{ { } x = y ; }", "@ a x = y ;", "@ a @ b ( ) let x = 1 ;", "@ a ( 1 ) const x = 1 ;", '@ a ( "s" , k = true ) if x { }',
              "@ a ( k = 0x1 , l = \"s\" ) while x { }", "f ( ) @ a ;", "/**/ x /**/ = // y ;"]
DECLARATIONS = ["const x = 1 ;", "const x : Int = y ;", "static_assert ( true ) ;", "function f ( ) -> Int { }", "function f ( x : Int ) -> Void { return ; }",
                "function f ( x : Int , y : Uint ( n ) , z : Bool ) -> Uint ( 8 ) { return x ; }", "function f ( ) -> Bool requires x == y { }", "@ a function f ( ) -> Int { }",
                "@ a @ b ( k = 1 ) const x = 1 ;", "@ a ( true , 1 ) @ b function f ( ) -> Int requires x { }", "const x = 1 ; static_assert ( x ) ; const y = x ;",
                "// const /**/ x = 1 ; //", "/**/"]


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every sequence of tokens: accepted iff the grammar derives it; the tree has the grammar's structure, names, operators and positions; errors are at the first "
             "token which cannot continue the program and list only tokens which could")
    cand = [f for k, l in P.by_q.items() if k.endswith("bms::parse") for f in l if len(f["p"]) == 2]
    if len(cand) != 1:
        raise AnalysisBroken("parse")
    tt = dict(P.enum("bms::Token_Type"))
    env = {"f": cand[0], "tt": tt, "names": {v: k for k, v in tt.items()}, "token_rec": P.record("bms::Token"), "span_rec": P.record("Local_Source_Span"),
           "types": P.enum("bms::Type_Type"), "null": P.enum("astp::Handle")["null"]}
    env["token"] = P.native(P.strip(cand[0]["p"][1]["t"])["n"])[1][0][1]
    only = os.environ.get("BMSA_ONLY")
    todo = [(key, l) for key, l in cases(ctx.thorough) if not only or only in key]
    parallel(ctx, [todo[i:i + 12] for i in range(0, len(todo), 12)], lambda c, part: [run_case(c, env, key, l) for key, l in part])
    if not only:
        ctx.need("token sequences", 200)


LONG = ["const x = ( ( ( x ) ) ) == y ;", "const x = - f ( g ( ( h ( x ) ) ) ) + 1 == ( ( ( y ) ) ) * 2 ;", "const x = ( ( ( ( ( x ) + 1 ) + 1 ) + 1 ) + 1 ) as Int ;",
        "const x = f ( a , b , c , d , e , f , g == h , i ) ;", "const x = x if y else z if y == 1 else z if ! ( y ) else w if v else u == 1 ;",
        "const x = ( x if ( y == z ) else ( w ) ) < f ( ) ;", "const x = ( ( x ) && ( y ) ) || ( z == w ) ;", "const x = f ( ( x ) , ( y == z ) , ( u if v else w ) ) & 1 ;",
        "const x = f ( ) @ a @ b ( 1 , 2 ) @ c ( k = \"s\" , l = true , m = 0x1 ) ;",
        "function f ( a : Int , b : Bool , c : Void , d : Uint ( 8 ) , e : Uint ( ( n ) ) , g : Int , h : Int ) -> Uint ( f ( x , 1 ) ) requires ( x == y ) && ! z { return ( x ) ; }",
        "function f ( ) -> Int { { { { { x = y ; } } } } }", "function f ( ) -> Int { x = 1 ; y = 2 ; z = 3 ; f ( ) ; let x = 1 ; const y = 2 ; break ; continue ; return ; }",
        "function f ( ) -> Int { if a { } else if b { } else if c { } else if d { } else { x = 1 ; } }", "function f ( ) -> Int { while x { if y { while z { break ; } } else { continue ; } } }",
        "function f ( ) -> Int { return x == y if ( z ) else ( w ) == ( u ) ; }", "function f ( ) -> Int { return ( x ) == ( y ) ; return - ( x ) ; }",
        "@ a ( ) @ b ( 1 ) @ c ( x = 1 , y = 2 , z = true ) @ d function f ( ) -> Int { @ a ( ) @ b @ c ( 1 ) let x = 1 ; }",
        "const a = 1 ; const b = 2 ; static_assert ( a ) ; function f ( ) -> Int { } static_assert ( b ) ; @ x const c = 3 ; function g ( ) -> Int { }",
        "/**/ // /**/ const // /**/ x /**/ /**/ = // // ( /**/ x // ) /**/ == // y /**/ ; // /**/ //",
        "function f ( ) -> Int { if f ( x ) { } if ( x ) == y { } else { } while ( x == 1 ) { } if x as Bool { } }"]


def cases(thorough):
    done = set()

    def one(l):
        k = " ".join({None: "?", "identifier": "x", "decimal_literal": "1", "hexadecimal_literal": "0x1", "string_literal": "str", "block_comment": "cmt", "line_comment": "lcmt"}.get(x) or SPELL[x] for x in l)
        if k not in done:
            done.add(k)
            yield k, l

    bases = [lex("const x = " + e + " ;") for e in EXPRESSIONS]
    bases += [lex("function f ( ) -> Int { " + s + " }") for s in STATEMENTS]
    bases += [lex(d) for d in DECLARATIONS]
    for b in bases:
        yield from one(b)
        for i in range(len(b) + 1):
            yield from one(b[:i])
            yield from one(b[:i] + [None])
            yield from one(b[:i] + [None] + b[i:])
            yield from one(b[:i] + [None] + b[i + 1:])
            yield from one(b[:i] + b[i + 1:])
    for d in LONG:
        b = lex(d)
        yield from one(b)
        for i in range(0, len(b), 1 if thorough else 2):
            yield from one(b[:i] + [None] + b[i + 1:])
            if thorough:
                yield from one(b[:i] + [None] + b[i:])
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        yield from one(lex("const x = " + "? " * n + ";"))
        yield from one(lex("function f ( ) -> Int { " + "? " * n + "}"))
        yield from one([None] * n)
        yield from one(lex("function f ( " + "? " * n + ") -> Int { }"))
        yield from one(lex("@ f ( " + "? " * n + ") const x = y ;"))
        yield from one(lex("const x = f ( " + "? " * n + ") ;"))
    if thorough:
        for b in bases:
            for i in range(len(b)):
                yield from one(b[:i] + [None, None] + b[i + 1:])
                yield from one(b[:i] + [None, None] + b[i + 2:])
                yield from one(b[:i] + [None, None])
