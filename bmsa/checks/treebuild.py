"""C12: the analysed tree. Programs covering all productions, with unknown operators, literals and types, are parsed and turned into the tree
used by all later passes; every node, child, name, position, parent and annotation is compared with the derivation found by the reference grammar."""
from ..lib import *  # noqa
from ..lib import Cell, CharSeq, StrObj, VecObj, SpanObj, Obj, Ptr, NULL, Sym, construct, explain, explore, fn_by, invoke, method, parallel, result_state, AnalysisBroken
from .parsing import EXPRESSIONS, STATEMENTS, DECLARATIONS, LONG, lex, reference, show

# children of the later tree: accessor -> child of the derivation
CHILDREN = {
    "Const": [("get_type_node", "type"), ("get_initializer_node", "initializer")], "Let": [("get_type_node", "type"), ("get_initializer_node", "initializer")],
    "Static_Assert": [("get_expression_node", "expression")], "Type": [("get_width_node", "width")],
    "If_Statement": [("get_condition_node", "condition"), ("get_if_block_node", "if_block"), ("get_else_node", "else_block")],
    "While_Statement": [("get_condition_node", "condition"), ("get_block_node", "block")], "Return_Statement": [("get_expression_node", "expression")],
    "Break": [("get_expression_node", None)], "Continue": [("get_expression_node", None)],
    "Assignment": [("get_expression_node", "expression")], "Conversion_Expression": [("get_expression_node", "expression"), ("get_target_type_node", "target_type")],
    "If_Expression": [("get_left_node", "left"), ("get_condition_node", "condition"), ("get_right_node", "right")],
    "Binary_Expression": [("get_left_node", "left"), ("get_right_node", "right")], "Prefix_Expression": [("get_expression_node", "expression")],
    "Function": [("get_return_type_node", "return_type"), ("get_requires_clause_node", "requires_clause"), ("get_body_node", "body")],
    "Id_Expression": [], "Literal": []}
CONTROL = {"Break": "break_", "Continue": "continue_", "Return_Statement": "return_"}
BINARY = {"plus": "binary_plus", "minus": "binary_minus"}
PREFIX = {"plus": "unary_plus", "minus": "unary_minus"}


class Tree:
    def __init__(self, run, env, analyzed, parsed, sets, kept, texts):
        self.run, self.env, self.analyzed, self.parsed, self.sets, self.kept, self.texts = run, env, analyzed, parsed, sets, kept, texts
        self.seen = set()

    def num(self, v):
        return self.run.concrete(v.v if isinstance(v, Cell) else v)

    def text(self, v, i):
        return isinstance(v, StrObj) and v.concrete() == self.texts[self.kept[i]]

    def position(self, v, i, where):
        """optional<Source_Span>"""
        run = self.run
        if not run.decide(v.has):
            return "%s: has no position" % where
        o = v.val.v
        k = self.kept[i]
        got = tuple(self.num(run.field(o, n)) for n in ("line", "column", "begin", "length"))
        if got != (k, 3, 7 * k, 5) or run.field(o, "file_name").v.concrete() != "file name":
            return "%s: its position is %r in %r instead of that of token %d" % (where, got, run.field(o, "file_name").v, k)

    def compare(self, p, want, parent, where):
        run = self.run
        p = p.v if isinstance(p, Cell) else p
        if p is not NULL and not isinstance(p, Ptr):
            if run.events:
                return "%s: is an indeterminate value (%s)" % (where, run.events[0])
            raise AnalysisBroken("%s: %r" % (where, p))
        if want is None:
            return None if p is NULL else "%s: present although there is none in the source" % where
        if p is NULL:
            return "%s: missing" % where
        cell = run.deref(p)
        if id(cell) in self.seen:
            return "%s: node occurs twice" % where
        self.seen.add(id(cell))
        k = self.num(cell.v.idx)
        body = cell.v.cells[k]
        rec = body.v.rec.split("::")[-1]
        kind, pos, attrs, children = want
        want_rec = "Control_Statement" if kind in CONTROL else kind
        if rec != want_rec:
            return "%s: is a %s instead of a %s" % (where, rec, want_rec)
        where += "/" + kind
        r = self.position(method(run, body, "get_position"), pos, where)
        if r:
            return r
        up = method(run, body, "get_parent")
        if (up is not NULL) if parent is None else (up is NULL or run.deref(up) is not parent):
            return "%s: its parent is not the node around it" % where
        if run.decide(method(run, body, "was_analyzed")):
            return "%s: counts as analysed" % where
        for a, i in attrs.items():
            if a == "annotations":
                continue
            if a == "name" or a == "function":
                good = self.text(method(run, body, "get_name"), i)
            elif a == "identifier":
                good = self.text(method(run, body, "get_identifier"), i)
            elif a == "literal":
                good = self.text(method(run, body, "get_literal"), i)
            elif a == "is_statement":
                good = bool(self.num(method(run, body, "is_statement"))) == i
            elif a == "op":
                good = self.is_type(method(run, body, "get_op"), i) and self.operation(method(run, body, "get_expression_type"), i, BINARY if kind.startswith("B") else PREFIX)
            elif a == "type" and kind == "Type":
                good = self.num(method(run, body, "get_type")) == self.env["types"][i]
            elif a == "type":
                good = self.is_type(method(run, body, "get_type"), i)
            else:
                raise AnalysisBroken("attribute " + a)
            if not good:
                return "%s: its %s is not that of the source (%s)" % (where, a, self.texts[self.kept[i]] if isinstance(i, int) and not isinstance(i, bool) else i)
        if kind in CONTROL and self.num(method(run, body, "get_type")) != self.env["control"][CONTROL[kind]]:
            return "%s: is another kind of control statement" % where
        named = dict(children) if kind in CHILDREN else {}
        ann = attrs.get("annotations") if kind == "Function_Call_Expression" else named.get("annotations")
        if "annotations" in attrs or "annotations" in named:
            r = self.annotations(body, ann, where)
            if r:
                return r
        if kind in CHILDREN:
            for acc, nm in CHILDREN[kind]:
                r = self.compare(method(run, body, acc), named[nm] if nm else None, cell, "%s.%s" % (where, nm))
                if r:
                    return r
            if kind == "Function":
                r = self.parameters(body, named["parameters"], cell, where)
                if r:
                    return r
            elif kind not in CONTROL:
                # the list of all children agrees
                l = method(run, body, "get_children")
                n = self.num(l.length)
                if n != len(CHILDREN[kind]):
                    return "%s: has %r children instead of %d" % (where, n, len(CHILDREN[kind]))
            return None
        l = method(run, body, "get_argument_nodes" if kind == "Function_Call_Expression" else "get_children")
        n = self.num(l.length)
        if n != len(children):
            return "%s: has %r children instead of %d" % (where, n, len(children))
        for k, c in enumerate(children):
            r = self.compare(run.elem(l, k), c, cell, "%s[%d]" % (where, k))
            if r:
                return r

    def is_type(self, v, i):
        x = self.num(v)
        return self.sets[self.kept[i]] == {self.env["names"][x]} if isinstance(x, int) else repr(x) == "t%d" % self.kept[i]

    def operation(self, v, i, table):
        s = self.sets[self.kept[i]]
        x = self.num(v)
        return len(s) == 1 and isinstance(x, int) and self.env["operations"].get(x) == table.get(min(s), min(s))

    def annotations(self, body, want, where):
        run = self.run
        fs = [f["n"] for f in run.all_fields(body.v.rec) if run.p.strip(f["t"]).get("n", "").endswith("::Annotations")]
        if len(fs) != 1:
            raise AnalysisBroken("annotations of " + body.v.rec)
        a = run.field(body.v, fs[0]).v
        spans = [run.field(a, f["n"]).v for f in run.all_fields(a.rec)]
        spans = [s for s in spans if isinstance(s, SpanObj)]
        if len(spans) != 1:
            raise AnalysisBroken("members of Annotations")
        n = self.num(spans[0].length)
        l = list(want[3]) if want else []
        if n != len(l):
            return "%s: has %r annotations instead of %d" % (where, n, len(l))
        for k, x in enumerate(l):
            o = method(run, self.parsed, "get_node", [self.num(run.elem(spans[0], k))])
            o = o.v if isinstance(o, Cell) else o
            o = o.cells[self.num(o.idx)].v
            if not o.rec.endswith("::Annotation") or not self.text(run.field(o, "name").v, x[2]["name"]):
                return "%s: annotation %d is not that of the source" % (where, k)

    def parameters(self, body, want, cell, where):
        run = self.run
        l = method(run, body, "get_parameters")
        l = l.v if isinstance(l, Cell) else l
        ps = list(want[3]) if want else []
        if self.num(l.length) != len(ps):
            return "%s: has %r parameters instead of %d" % (where, self.num(l.length), len(ps))
        for k, p in enumerate(ps):
            c = run.elem(l, k)
            w = "%s.parameters[%d]" % (where, k)
            if not self.text(method(run, c, "get_name"), p[2]["name"]):
                return w + ": its name is not that of the source"
            r = self.position(method(run, c, "get_position"), p[1], w) or self.compare(method(run, c, "get_type_node"), dict(p[3])["type"], cell, w + ".type")
            if r:
                return r


def run_case(ctx, env, key, tokens, limit=100000):
    P, tt, names = ctx.p, env["tt"], env["names"]
    state = {}
    texts = ["n%d" % i if t is not None else "u%d" % i for i, t in enumerate(tokens)]
    if key in env["same"]:
        # all identifiers are the same
        texts = ["name" if t == "identifier" else x for t, x in zip(tokens, texts)]

    def entry(run):
        state["phase"] = "code"
        v = VecObj(None, env["token"], len(tokens))
        syms, src = [], ""
        for i, t in enumerate(tokens):
            text = (texts[i] + "     ")[:5] if t != "string_literal" else '"%s"' % (texts[i] + "   ")[:3]
            texts[i] = text
            src += text + "  "
            o, pos = Obj(env["token_rec"]), Obj(env["span_rec"])
            for n, x in (("line", i), ("column", 3), ("begin", 7 * i), ("length", 5)):
                run.field(pos, n).v = x
            run.field(o, "pos").v = pos
            ty = tt[t] if t is not None else Sym("t%d" % i, 32, True, enum=tuple(sorted(tt.values())))
            run.field(o, "type").v = ty
            syms.append(ty)
            v.elems[i] = Cell(o)
        mem = Ptr(Cell(Obj(None)))
        prog = Cell(construct(run, "bms::Parsed_Program", [None, None], [StrObj(None, src), mem]))
        state["phase"] = "parse"
        r = invoke(run, env["f"], [prog, SpanObj(None, v, 0, len(tokens))])
        if result_state(run, r)[0] != "ok":
            return
        state["phase"] = "code"
        an = Cell(construct(run, "bms::Analyzed_Program", [None, None, None], [prog, StrObj(None, "file name"), mem]))
        root = method(run, an, "get_root")
        state["phase"] = "rules"
        sets = []
        for ty in syms:
            c = run.concrete(ty)
            sets.append(frozenset([names[c]]) if isinstance(c, int) else frozenset(n for n, x in tt.items() if run.facts.domain(c).has(x)))
        for s, tree, far, viable, kept in reference(sets):
            if tree is None:
                continue        # accepted wrongly: see C11
            ctx.count("trees")
            t = Tree(run, env, an, prog, s, kept, texts)
            why = t.compare(root, tree, None, "root")
            ctx.ok(not why, key + ":tree", "%s: %s" % (" ".join(show(x) for x in s), why))
            ctx.ok(method(run, an, "get_source").concrete() == src and method(run, an, "get_file_name").concrete() == "file name", key + ":source",
                   "%s: the source or file name is not the one given" % key)
            state["phase"] = "code"
            entities(ctx, run, an, key, tree, texts, kept)
            state["phase"] = "rules"

    n = 0
    for p in explore(P, entry, {}, {"unroll": 400, "rec_limit": 60, "max_depth": 900}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.run.notes and p.kind != "return":
            raise AnalysisBroken("%s: %s" % (key, p.run.notes[:2]))
        if p.kind != "return" and state["phase"] != "parse":
            if state["phase"] != "code":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: building the tree ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("programs")
    ctx.count("paths", n)


def entities(ctx, run, an, key, tree, texts, kept):
    """finding global entities by their names"""
    decls = [(d[0], texts[kept[d[2]["name"]]]) for d in tree[3] if d[0] in ("Function", "Const")]
    root = run.deref(method(run, an, "get_root"))
    kids = method(run, root.v.cells[run.concrete(root.v.idx)], "get_children")
    order = [d for d in tree[3]]
    for name in [n for k, n in decls] + ["other"]:
        hits = [i for i, d in enumerate(order) if d[0] in ("Function", "Const") and texts[kept[d[2]["name"]]] == name]
        for fn, kind, node in (("find_entity", None, True), ("find_global_function_node", "Function", True), ("find_global_constant_node", "Const", True),
                               ("find_global_function", "Function", False), ("find_global_constant", "Const", False)):
            st, v = result_state(run, method(run, an, fn, [StrObj(None, name)]))
            what = "%s: %s(%s)" % (key, fn, name)
            if not hits:
                ctx.ok(st == "err" and run.concrete(v) == run.p.enum("bms::Introspection_Error_Code")["nothing_found"], key + ":" + fn, what + " finds something although nothing has this name")
                continue
            got = order[hits[0]][0]
            if kind and got != kind:
                ctx.ok(st == "err" and run.concrete(v) == run.p.enum("bms::Introspection_Error_Code")["wrong_entity"], key + ":" + fn, what + " does not report that this is another kind of entity")
                continue
            if not ctx.ok(st == "ok", key + ":" + fn, what + " finds nothing"):
                continue
            cell = run.deref(run.elem(kids, hits[0]).v)
            want = cell if node else cell.v.cells[run.concrete(cell.v.idx)]
            ctx.ok(run.deref(v) is want, key + ":" + fn, what + " finds another entity")


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every program: each node of the derivation is one node of the tree, of its kind, with its name, operation, position, parent, children in their roles and annotations; "
             "global entities are found by their names")
    cand = [f for k, l in P.by_q.items() if k.endswith("bms::parse") for f in l if len(f["p"]) == 2]
    if len(cand) != 1:
        raise AnalysisBroken("parse")
    tt = dict(P.enum("bms::Token_Type"))
    env = {"f": cand[0], "tt": tt, "names": {v: k for k, v in tt.items()}, "token_rec": P.record("bms::Token"), "span_rec": P.record("Local_Source_Span"),
           "types": P.enum("bms::Type_Type"), "control": P.enum("ast::Control_Statement_Type"), "operations": {v: k for k, v in P.enum("bms::Expression_Type").items()},
           "same": set()}
    env["token"] = P.native(P.strip(cand[0]["p"][1]["t"])["n"])[1][0][1]
    only = os.environ.get("BMSA_ONLY")
    todo = {}
    for base in ["const x = " + e + " ;" for e in EXPRESSIONS] + ["function f ( ) -> Int { " + s + " }" for s in STATEMENTS] + DECLARATIONS + LONG:
        l = lex(base)
        todo[base] = l
        env["same"].add(base + " #same")
        todo[base + " #same"] = l
        for i in range(len(l)):
            if ctx.thorough or l[i] not in ("identifier", "semicolon", "left_parenthesis", "right_parenthesis", "left_brace", "right_brace", "comma", "colon", "line_comment", "block_comment"):
                todo["%s #%d" % (base, i)] = l[:i] + [None] + l[i + 1:]
    l = [(k, x) for k, x in todo.items() if not only or only in k]
    parallel(ctx, [l[i:i + 8] for i in range(0, len(l), 8)], lambda c, part: [run_case(c, env, k, x) for k, x in part])
    if not only:
        ctx.need("trees", 300)
