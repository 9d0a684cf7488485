"""Abstract BMS syntax trees: nodes of a concrete kind with unconstrained contents, and opaque children (assume/guarantee).

A pass over the tree is analysed one node kind at a time: the node's handler is interpreted with children which are opaque, i.e. the recursive
visit of a child is replaced by the pass's own contract. The hook sits on the repository's `visit`, keyed by the pass's return type."""
from .lib import *  # noqa
from .lib import Cell, Ptr, NULL, Obj, VariantObj, OptObj, VecObj, SpanObj, StrObj, AnalysisBroken, method, construct, tname, is_sym

NS = "bit_manipulation::bms::"
AST = NS + "ast::"


class Tree:
    """per-path builder"""

    def __init__(self, run):
        self.run, self.P = run, run.p
        self.kinds = kinds(self.P)
        self.opaque = {}            # id(cell) -> Child
        self.keep = []

    def node(self, kind, name):
        """cell of a Some_Node of the given kind with fresh contents"""
        P, run = self.P, self.run
        rec, alts, byname = self.kinds
        v = VariantObj(rec, alts, byname[kind], name)
        c = Cell(v, name)
        self.keep.append(c)
        return c

    def body(self, c):
        """cell of the concrete node behind a Some_Node cell"""
        return self.run.variant_cell(c.v, c.v.idx)

    def children_of(self, c):
        sp = method(self.run, self.body(c), "get_children")
        return sp

    def set_children(self, c, children):
        """children: list of cells or None"""
        run = self.run
        sp = self.children_of(c)
        vec, off = (sp.vec, sp.off) if isinstance(sp, SpanObj) else (sp, 0)
        n = run.concrete(vec.length)
        if not isinstance(n, int) or vec.kind != "array":
            vec.length = len(children)
            vec.elems = {}
            vec.path = None
            for i, ch in enumerate(children):
                vec.elems[i] = Cell(ptr(ch))
            return
        if n != len(children):
            raise AnalysisBroken("%s has %s children, %d given" % (c.name, n, len(children)))
        for i, ch in enumerate(children):
            run.elem(vec, add(off, i)).v = ptr(ch)

    def get(self, c, accessor):
        return method(self.run, self.body(c), accessor)

    def set(self, c, accessor, val):
        """give the member behind an accessor a value"""
        o = self.body(c).v if isinstance(c.v, VariantObj) else c.v
        set_behind(self.run, o, accessor, val)

    def set_optional(self, o, accessor, val):
        pass

    def const_value(self, c):
        """the optional Value of a node (OptObj)"""
        v = method(self.run, self.body(c), "const_value")
        if not isinstance(v, OptObj):
            raise AnalysisBroken("const_value() is no optional")
        return v

    def set_const_value(self, c, val):
        o = self.const_value(c)
        if val is None:
            o.has, o.val = 0, None
        else:
            o.has, o.val = 1, Cell(val)

    def set_parent(self, c, parent):
        set_behind(self.run, self.body(c).v, "get_parent", ptr(parent))


def set_behind(run, o, accessor, val):
    before = dict(o.fields)
    v = method(run, Cell(o), accessor)
    new = [k for k in o.fields if k not in before]
    if len(new) != 1:
        same = [k for k, c in o.fields.items() if c.v is v or (is_sym(v) and repr(c.v) == repr(v))]
        new = same
    if len(new) != 1:
        raise AnalysisBroken("member behind %s::%s not identified" % (o.rec, accessor))
    o.fields[new[0]].v = val


def ptr(c):
    return NULL if c is None else Ptr(c)


def kinds(P):
    k = P.__dict__.get("_ast_kinds")
    if k is None:
        rec = P.record(AST + "Some_Node")
        nat, ta = P.native(rec)
        alts = [x[1] for x in ta]
        byname = {tname(P, a).split("::")[-1]: i for i, a in enumerate(alts)}
        k = P._ast_kinds = (rec, alts, byname)
    return k


def mk_result(run, t, err=None):
    """Result<void, E> value of type t"""
    nat, ta = run.p.native(run.p.strip(t)["n"])
    if nat != "result":
        raise AnalysisBroken("result type expected")
    return ResultObj(run.p.strip(t)["n"], ta[0][1], ta[1][1], 0 if err is not None else 1, Cell(None), None if err is None else Cell(err))


def result_err_type(P, t):
    nat, ta = P.native(P.strip(t)["n"])
    return tname(P, ta[1][1]).split("::")[-1] if nat == "result" else None


def pass_hook(is_opaque, summary, err="Analysis_Error"):
    """hook on `visit`: the pass's recursive visit of an opaque child is replaced by summary(run, child cell, e)"""
    def hook(run, e, obj, args):
        if len(args) != 2:
            return NotImplemented
        c = args[1]
        if not isinstance(c, Cell) or not is_opaque(run, c):
            return NotImplemented
        ty = run.p.strip(e["t"])
        if ty["k"] != "rec" or run.p.native(ty["n"])[0] != "result" or result_err_type(run.p, e["t"]) != err:
            return NotImplemented
        return summary(run, c, e)
    return {"bit_manipulation::visit": hook}


def vec_push(run, vec, val):
    n = run.concrete(vec.length)
    vec.elems[n] = Cell(val)
    vec.length = add(n, 1)


def alternatives(P, rec):
    rec = P.record(rec)
    nat, ta = P.native(rec)
    return rec, [x[1] for x in ta], {tname(P, x[1]).split("::")[-1].rstrip(" *"): i for i, x in enumerate(ta)}
