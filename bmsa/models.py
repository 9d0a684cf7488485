"""Models of the library types the repository is built on (and of its own Result/Variant wrappers)."""
from .terms import Cond, Sym, App, add, sub, is_sym, norm_eq, parts
from . import ops, stdlib, streams
from .values import *  # noqa
from .values import UNINIT, NULL, Cell, Ptr, ElemPtr, SymPtr, FnRef, MemPtr, Havoc, Obj, Closure, VariantObj, OptObj, \
    ResultObj, VecObj, SpanObj, SymStr, CharSeq, StrObj, MapObj, MapIt, ViewObj, Ext

NI = NotImplemented


def V(a):
    return a.v if isinstance(a, Cell) else a


def call(run, e, obj, args):
    o = V(obj) if obj is not None else None
    n = e["n"]
    q = e["q"]
    r = stdlib.call(run, e, obj, args)
    if r is not NI:
        return r
    if "::ranges::" in q or q.startswith("std::__") or q.startswith("std::views"):
        r = ranges_object(run, e, args)
        if r is NI:
            r = ranges_call(run, e, args)
        if r is not NI:
            return r
    if o is not None:
        m = None
        if q.startswith("std::bitset"):
            r = bitset_method(run, e, obj, o, n, args)
            if r is not NI:
                return r
        if isinstance(o, int) and q.startswith("std::") and n.startswith("operator ") and n.endswith("_ordering"):
            return o
        if isinstance(o, Closure):
            return o if n.startswith("operator ") and n != "operator ()" and e["q"].count("(") else NI
        if isinstance(o, OptObj):
            m = opt_method
        elif isinstance(o, ResultObj):
            m = result_method
        elif isinstance(o, VariantObj):
            m = variant_method
        elif isinstance(o, (VecObj, SpanObj)):
            m = vec_method
        elif isinstance(o, StrObj):
            m = str_method
        elif isinstance(o, MapObj):
            m = map_method
        elif isinstance(o, (ElemPtr, MapIt)):
            m = it_method
        elif isinstance(o, ViewObj):
            m = view_method
        elif isinstance(o, streams.Stream):
            m = streams.method
        elif isinstance(o, Ext):
            m = ext_method
        elif isinstance(o, Havoc):
            return havoc_result(run, e)
        elif o is UNINIT and e.get("ext"):
            return havoc_result(run, e)
        if m is not None:
            r = m(run, e, obj, o, n, args)
            if r is not NI:
                return r
        return NI
    f = FREE.get(q)
    if f is None and n in FREE_BY_NAME and (e.get("ext") or n in ("visit", "get", "get_if", "holds_alternative")):
        f = FREE_BY_NAME[n]
    if f is not None:
        r = f(run, e, args)
        if r is not NI:
            return r
    if n in ALGOS and n in ("find",) and q.startswith("std::"):
        r = ALGOS[n](run, e, args)
        if r is not NI:
            return r
    if e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "<=>", "+", "-") and (e.get("ext") or e.get("defd")):
        r = compare(run, e, args)
        if r is not NI:
            return r
    if n == "operator==" and len(args) == 2 and isinstance(V(args[0]), VariantObj):
        return variant_eq(run, V(args[0]), args[1], e)
    if q.startswith("std::ranges::"):
        r = ranges_call(run, e, args)
        if r is not NI:
            return r
    return NI


def havoc_result(run, e):
    ty = run.type(e["t"])
    if ty["k"] == "void":
        return None
    h = Havoc("result of %s on unknown" % e["n"])
    return Cell(h) if "lv" in e else h


# ---------------------------------------------------------------------------- optional
def opt_method(run, e, cell, o, n, args):
    if n in ("has_value", "operator bool"):
        return o.has
    if n in ("operator*", "value"):
        if n == "value":
            if not run.decide(o.has):
                run.event("bad-optional-access", run.where(e.get("l")))
                raise throw(run, "std::bad_optional_access", e)
        return run.opt_get(o, e.get("l"))
    if n == "operator->":
        return Ptr(run.opt_get(o, e.get("l")))
    if n == "value_or":
        if run.decide(o.has):
            return run.copy_val(run.opt_get(o).v)
        return run.rvalue(V(args[0]))
    if n == "reset":
        o.has, o.val = 0, None
        return None
    if n == "emplace":
        o.has = 1
        o.val = Cell(run.copy_val(V(args[0])) if args else run.default_value(o.vt))
        return o.val
    if n == "operator=":
        a = V(args[0])
        if isinstance(a, OptObj):
            a = run.copy_val(a)
            o.has, o.val, o.path = a.has, a.val, a.path
        elif isinstance(a, Ext) and (a.path == "nullopt" or (a.rec or "").startswith("std::nullopt")):
            o.has, o.val = 0, None
        else:
            o.has, o.val = 1, Cell(conv(run, run.copy_val(a), o.vt))
        return cell
    return NI


def throw(run, tname, e):
    from .interp import ThrowEx
    run.event("throw", tname, "", run.where(e.get("l")))
    return ThrowEx(tname, None, e.get("l"), run.where(e.get("l")))


def conv(run, v, t):
    """wrap a value converted to a variant-like type"""
    ty = run.p.strip(t)
    if ty["k"] == "rec":
        nat, ta = run.p.native(ty["n"])
        if nat == "variant" and not isinstance(v, VariantObj):
            return to_variant(run, ty["n"], ta, v, None)
        if nat == "optional" and not isinstance(v, OptObj):
            return OptObj(ty["n"], ta[0][1], 1, Cell(conv(run, v, ta[0][1])))
        if nat in ("strview", "string") and isinstance(v, StrObj):
            return StrObj(ty["n"], v.base, v.off, v.length)
        if nat is None and type(v) is Obj and v.rec != ty["n"]:
            # converting constructor
            for f in run.p.ctors_of(ty["n"]):
                if len(f["p"]) == 1:
                    pt = run.p.strip(f["p"][0]["t"])
                    if pt["k"] == "rec" and pt["n"] == v.rec:
                        o = Cell(Obj(ty["n"]))
                        run.call_fn(f, o, [Cell(v)], by_decl=True)
                        return o.v
    return v


# ---------------------------------------------------------------------------- Result
def result_method(run, e, cell, o, n, args):
    l = e.get("l")
    if n in ("has_value", "operator bool"):
        return o.has
    if n in ("operator*", "value"):
        c = run.result_get(o, l)
        return None if run.type(e["t"])["k"] == "void" else c
    if n == "operator->":
        return Ptr(run.result_get(o, l))
    if n == "error":
        return run.result_err(o, l)
    if n == "operator=":
        a = V(args[0])
        if isinstance(a, ResultObj):
            a = run.copy_val(a)
            o.assign(a)
            return cell
        return NI
    return NI


def to_result(run, rec, ta, args, e):
    vt, et = ta[0][1], ta[1][1]
    if not args:
        return ResultObj(rec, vt, et, 1, Cell(None))
    if len(args) == 2:
        tag = run.p.strip(e["pt"][0])["n"]
        v = run.rvalue(args[1])
        if tag.endswith("Success_Tag"):
            return ResultObj(rec, vt, et, 1, Cell(v))
        return ResultObj(rec, vt, et, 0, None, Cell(v))
    v = run.rvalue(args[0])
    if isinstance(v, ResultObj):
        return v
    # which constructor: by parameter type
    pt = run.type_unq(e["pt"][0]) if e.get("pt") else None
    if pt is not None and pt == run.type_unq(et) and pt != run.type_unq(vt):
        return ResultObj(rec, vt, et, 0, None, Cell(v))
    return ResultObj(rec, vt, et, 1, Cell(v))


# ---------------------------------------------------------------------------- Variant
def to_variant(run, rec, ta, v, e):
    alts = [x[1] for x in ta]
    if isinstance(v, VariantObj) and v.rec == rec:
        return v
    if isinstance(v, VariantObj) and len(v.alts) == len(alts) and run.p.native(rec)[1] == run.p.native(v.rec)[1]:
        v.rec = rec
        return v
    name = None
    if e is not None and e.get("pt"):
        name = run.type_unq(e["pt"][0])
    for i, a in enumerate(alts):
        an = run.type_unq(a)
        if name is not None and an == name:
            return run.mk_variant(rec, alts, i, v)
    for i, a in enumerate(alts):
        ty = run.type(a)
        if isinstance(v, Obj) and ty["k"] == "rec" and v.rec == ty["n"]:
            return run.mk_variant(rec, alts, i, v)
    for i, a in enumerate(alts):
        k = run.type(a)["k"]
        if k == "ptr" and (v is NULL or isinstance(v, (Ptr, SymPtr, ElemPtr))):
            return run.mk_variant(rec, alts, i, v)
    run.note("variant conversion to " + rec)
    x = VariantObj(rec, alts, Sym(run.fresh_name("var.idx"), 8, enum=tuple(range(len(alts))), src="havoc"), run.fresh_name("variant"))
    return x


def variant_method(run, e, cell, o, n, args):
    if n == "index":
        return o.idx
    if n == "operator=":
        a = V(args[0])
        if isinstance(a, VariantObj):
            a = run.copy_val(a)
            o.assign(a)
        else:
            nat, ta = run.p.native(o.rec)
            o.assign(to_variant(run, o.rec, ta, run.copy_val(a), e))
        return cell
    if n == "operator==":
        return variant_eq(run, o, args[0], e)
    if n == "emplace" and e.get("fta"):
        k, v = e["fta"][0]
        if k == "t":
            i = [j for j, x in enumerate(o.alts) if run.type_unq(x) == run.type_unq(v)][:1]
        else:
            i = [v] if isinstance(v, int) and v < len(o.alts) else []
        if i:
            val = build(run, o.alts[i[0]], args, e)
            o.assign(run.mk_variant(o.rec, o.alts, i[0], val))
            return run.variant_cell(o, i[0])
    return NI


def variant_eq(run, o, arg, e):
    a = V(arg)
    if isinstance(a, VariantObj):
        if run.decide(ops.binary("==", run.concrete(o.idx), run.concrete(a.idx), 8, False)):
            i = run.split_value(o.idx)
            return equal(run, run.variant_cell(o, i), run.variant_cell(a, i), o.alts[i])
        return 0
    t = None
    for i, x in enumerate(o.alts):
        ty = run.type(x)
        if isinstance(a, Obj) and ty["k"] == "rec" and ty["n"] == a.rec:
            t = i
        elif not isinstance(a, Obj) and ty["k"] != "rec" and e.get("pt") and run.type_unq(x) == run.type_unq(e["pt"][-1]):
            t = i
    if t is None:
        return Havoc("variant comparison")
    if run.decide(ops.binary("==", run.concrete(o.idx), t, 8, False)):
        return equal(run, run.variant_cell(o, t), a, o.alts[t])
    return 0


def equal(run, a, b, t=None):
    """structural equality"""
    a, b = V(a), V(b)
    if isinstance(a, StrObj) and isinstance(b, StrObj):
        return str_eq(run, a, b)
    if isinstance(a, OptObj) or isinstance(b, OptObj):
        return opt_eq(run, a, b)
    if isinstance(a, VariantObj) and isinstance(b, VariantObj):
        return variant_eq(run, a, Cell(b), {})
    if isinstance(a, VecObj) and isinstance(b, VecObj):
        return Havoc("vector equality")
    if isinstance(a, Obj) and isinstance(b, Obj) and type(a) is Obj and type(b) is Obj:
        # user operator==, if the program has one
        for f in run.p.by_q.get(a.rec + "::operator==", []) + run.p.by_q.get(a.rec.rsplit("::", 1)[0] + "::operator==", []):
            if f.get("b") and not f.get("defd"):
                ps = [run.type_unq(p["t"]) for p in f["p"]]
                if f.get("rec") is not None and len(ps) == 1 and ps[0] == a.rec:
                    return run.call_fn(f, Cell(a), [Cell(b)])
                if f.get("rec") is None and len(ps) == 2 and ps[0] == ps[1] == a.rec:
                    return run.call_fn(f, None, [Cell(a), Cell(b)])
        for f in run.all_fields(a.rec):
            x, y = run.field(a, f["n"]), run.field(b, f["n"])
            r = equal(run, x, y, f["t"])
            if not run.decide(run.truth(r)):
                return 0
        return 1
    if a is UNINIT or b is UNINIT or isinstance(a, Havoc) or isinstance(b, Havoc):
        return Havoc("equality")
    if (isinstance(a, int) or is_sym(a)) and (isinstance(b, int) or is_sym(b)):
        return ops.binary("==", run.concrete(a), run.concrete(b), 64, False)
    from .interp import is_ptr
    if is_ptr(a) or is_ptr(b) or isinstance(a, ElemPtr):
        return run.ptr_eq(a, b) if not isinstance(a, ElemPtr) else run.ptr_arith("==", a, b)
    return Havoc("equality of %s" % type(a).__name__)


def opt_eq(run, a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        x = a if isinstance(a, OptObj) else b
        return ops.unary("!", run.truth(x.has), 1, False)
    if not isinstance(a, OptObj):
        a, b = b, a
    if isinstance(b, OptObj):
        ha, hb = run.decide(a.has), run.decide(b.has)
        if ha != hb:
            return 0
        if not ha:
            return 1
        return equal(run, run.opt_get(a), run.opt_get(b))
    if not run.decide(a.has):
        return 0
    return equal(run, run.opt_get(a), b)


# ---------------------------------------------------------------------------- vectors, spans, arrays
def bitset_method(run, e, cell, o, n, args):
    """a bitset is an array of 0/1; its references are the elements' cells"""
    if not isinstance(o, VecObj):
        if n == "operator bool":
            return run.rvalue(cell)
        if n == "operator=":
            cell.v = run.rvalue(args[0])
            return cell
        if n == "operator~":
            return int(not run.decide(run.rvalue(cell)))
        return NI
    if o.kind != "bitset":
        return NI
    size = o.length
    if n == "size":
        return size
    if n in ("operator[]", "test"):
        i = run.concrete(V(args[0]))
        if n == "test" and not run.decide(ops.binary("<", i, size, 64, False)):
            raise throw(run, "std::out_of_range", e)
        return run.elem(o, i, e.get("l")) if n == "operator[]" else run.elem(o, i, e.get("l")).v
    if n in ("set", "reset", "flip"):
        which = range(size)
        if args:
            i = run.concrete(V(args[0]))
            if not run.decide(ops.binary("<", i, size, 64, False)):
                raise throw(run, "std::out_of_range", e)
            which = [i]
        for i in which:
            c = run.elem(o, i, e.get("l"))
            if n == "flip":
                c.v = int(not run.decide(c.v))
            else:
                c.v = int(run.decide(V(args[1]))) if len(args) > 1 else int(n == "set")
        return cell
    if n in ("any", "all", "none", "count"):
        k = sum(1 for i in range(size) if run.decide(run.elem(o, i, e.get("l")).v))
        return {"any": int(k > 0), "all": int(k == size), "none": int(k == 0), "count": k}[n]
    return NI


def vec_method(run, e, cell, o, n, args):
    l = e.get("l")
    if n in ("size", "length", "ssize"):
        return o.length
    if n == "empty":
        return ops.binary("==", run.concrete(o.length), 0, 64, False)
    if n == "operator[]":
        return run.elem(o, V(args[0]), l)
    if n == "at":
        i = V(args[0])
        ok = ops.binary("<", run.concrete(i), run.concrete(o.length), 64, False)
        if isinstance(ok, Havoc) or run.decide(ok):
            if is_sym(i) and not run.decide(ops.binary(">=", run.concrete(i), 0, 64, False)):
                raise throw(run, "std::out_of_range", e)
            return run.elem(o, i, l)
        raise throw(run, "std::out_of_range", e)
    if n == "back":
        nonempty(run, o, l, "back")
        return run.elem(o, sub(o.length, 1), l)
    if n == "front":
        nonempty(run, o, l, "front")
        return run.elem(o, 0, l)
    if n in ("data",):
        return ElemPtr(o, 0)
    if n in ("begin", "cbegin"):
        return ElemPtr(o, 0)
    if n in ("end", "cend"):
        return ElemPtr(o, o.length)
    if n in ("rbegin", "rend"):
        return Havoc("reverse iterator")
    if isinstance(o, SpanObj):
        if n == "subspan":
            off = V(args[0])
            cnt = V(args[1]) if len(args) > 1 else None
            if isinstance(cnt, int) and cnt >= (1 << 63) or cnt is None:
                cnt = sub(o.length, off)
            return SpanObj(o.rec, o.vec, add(o.off, off), cnt)
        if n == "first":
            return SpanObj(o.rec, o.vec, o.off, V(args[0]))
        if n == "last":
            return SpanObj(o.rec, o.vec, add(o.off, sub(o.length, V(args[0]))), V(args[0]))
        if n == "operator=":
            o.assign(V(args[0]))
            return cell
        return NI
    if n in ("push_back", "emplace_back"):
        if n == "emplace_back":
            v = emplace_value(run, o.et, e, args)
        else:
            v = conv(run, run.rvalue(args[0]), o.et)
        idx = run.concrete(o.length)
        c = Cell(v)
        o.elems[idx] = c
        o.length = add(idx, 1)
        hk = run.opts.get("on_push")
        if hk:
            hk(run, o, c, e)
        return c
    if n == "pop_back":
        nonempty(run, o, l, "pop_back")
        o.length = sub(o.length, 1)
        o.elems.pop(run.concrete(o.length), None)
        return None
    if n == "clear":
        o.length = 0
        o.elems.clear()
        return None
    if n == "resize":
        m = run.concrete(V(args[0]))
        truncate(run, o, m)
        return None
    if n == "reserve" or n == "shrink_to_fit":
        return None
    if n in ("capacity",):
        return Sym(run.fresh_name("capacity"), 62, src="havoc")
    if n == "operator=":
        a = V(args[0])
        if isinstance(a, (VecObj,)):
            if a is not o:
                o.assign(run.copy_val(a))
        return cell
    if n == "assign":
        return NI
    if n == "insert":
        return vec_insert(run, o, args, e)
    if n == "erase":
        return vec_erase(run, o, args, e)
    if n == "swap":
        a = V(args[0])
        t = run.copy_val(a)
        a.assign(run.copy_val(o))
        o.assign(t)
        return None
    if n == "get_allocator":
        return Ext("allocator", "allocator")
    if n == "fill":
        for i in list(o.elems) or range(o.length if isinstance(o.length, int) else 0):
            o.elems[i] = Cell(run.rvalue(args[0]))
        return None
    return NI


def emplace_value(run, et, e, args):
    ty = run.p.strip(et)
    if len(args) == 1:
        v = run.rvalue(args[0])
        if ty["k"] != "rec":
            return v
        if isinstance(v, Obj) and v.rec == ty["n"]:
            return v
        v2 = conv(run, v, et)
        if v2 is not v:
            return v2
    if ty["k"] == "rec":
        o = Obj(ty["n"])
        fs = run.all_fields(ty["n"])
        # aggregate or constructor that initialises members in order
        ctors = [f for f in run.p.funcs.values() if f.get("ctor") and f["q"].startswith(ty["n"] + "::") and len(f["p"]) == len(args)]
        if ctors:
            c = Cell(o)
            run.call_fn(ctors[0], c, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
            return c.v
        if len(args) <= len(fs):
            for f, a in zip(fs, args):
                o.fields[f["n"]] = Cell(run.rvalue(a))
            return o
    return Havoc("emplaced value")


def nonempty(run, o, l, what):
    k = run.known(ops.binary(">", run.concrete(o.length), 0, 64, False))
    if k is False:
        run.event("oob", "%s of an empty sequence" % what, run.where(l))
        raise_end("empty sequence")
    if k is None:
        hk = run.opts.get("on_maybe_empty")
        if hk:
            hk(run, o, l, what)
        run.facts.assume(ops.binary(">", run.concrete(o.length), 0, 64, False), True)


def raise_end(why):
    from .interp import PathEnd
    raise PathEnd(why)


def truncate(run, o, m):
    cur = run.concrete(o.length)
    for k in list(o.elems):
        r = run.known(ops.binary(">=", k, m, 64, False))
        if r is not False:
            if r is None and not is_sym(k) and not is_sym(m):
                continue
            o.elems.pop(k)
    grow = run.known(ops.binary(">", m, cur, 64, False)) if not isinstance(m, Havoc) else None
    if grow is True and isinstance(m, int) and isinstance(cur, int) and m - cur < 200:
        for i in range(cur, m):
            o.elems[i] = Cell(run.default_value(o.et, True))
    hk = run.opts.get("on_resize")
    if hk:
        hk(run, o, m)
    o.length = m


def vec_insert(run, o, args, e):
    hk = run.opts.get("on_insert")
    if hk:
        r = hk(run, o, args, e)
        if r is not NI:
            return r
    pos = V(args[0])
    vals = [V(a) for a in args[1:]]
    if len(vals) == 2 and isinstance(vals[0], ElemPtr) and isinstance(vals[1], ElemPtr):
        b0, i0 = run.base_of(vals[0])
        b1, i1 = run.base_of(vals[1])
        n = run.concrete(sub(i1, i0)) if b0 is b1 else Havoc("range of two sequences")
        atend = isinstance(pos, ElemPtr) and run.known(ops.binary("==", run.concrete(pos.idx), run.concrete(o.length), 64, False))
        if atend:
            if isinstance(n, int) and n < 300:
                for k in range(n):
                    o.elems[run.concrete(o.length)] = Cell(run.copy_val(run.elem(vals[0].vec, add(vals[0].idx, k)).v))
                    o.length = add(o.length, 1)
            else:
                o.length = add(o.length, n)
            return ElemPtr(o, pos.idx)
    if len(vals) == 2 and (isinstance(vals[0], int)):  # n copies
        atend = isinstance(pos, ElemPtr) and run.known(ops.binary("==", run.concrete(pos.idx), run.concrete(o.length), 64, False))
        if atend:
            for k in range(min(vals[0], 300)):
                o.elems[run.concrete(o.length)] = Cell(run.copy_val(vals[1]))
                o.length = add(o.length, 1)
            return ElemPtr(o, pos.idx)
    if len(vals) == 2 and is_sym(vals[0]):
        o.length = add(o.length, vals[0])
        return ElemPtr(o, pos.idx if isinstance(pos, ElemPtr) else 0)
    run.note("vector insert")
    o.length = Sym(run.fresh_name("len-after-insert"), 62, src="havoc")
    return ElemPtr(o, 0)


def vec_erase(run, o, args, e):
    vals = [V(a) for a in args]
    if len(vals) == 2 and all(isinstance(v, ElemPtr) for v in vals):
        if run.known(ops.binary("==", run.concrete(vals[1].idx), run.concrete(o.length), 64, False)):
            truncate(run, o, run.concrete(vals[0].idx))
            return ElemPtr(o, o.length)
    run.note("vector erase")
    o.elems.clear()
    o.length = Sym(run.fresh_name("len-after-erase"), 62, src="havoc")
    return ElemPtr(o, 0)


def view_method(run, e, cell, o, n, args):
    if n in ("begin", "cbegin"):
        return ElemPtr(o, 0)
    if n in ("end", "cend"):
        return ElemPtr(o, o.length)
    if n == "size":
        return o.length
    if n == "empty":
        return ops.binary("==", run.concrete(o.length), 0, 64, False)
    if n == "operator bool":
        return run.truth(ops.binary("!=", run.concrete(o.length), 0, 64, False))
    if n == "operator[]":
        return run.elem(o, V(args[0]), e.get("l"))
    if n == "front":
        return run.elem(o, 0, e.get("l"))
    if n == "back":
        return run.elem(o, sub(o.length, 1), e.get("l"))
    return NI


def it_method(run, e, cell, o, n, args):
    if isinstance(o, MapIt):
        if n == "operator->":
            if o.entry is None:
                return Ptr(run.deref(o, e.get("l")))
            return Ptr(o.entry)
        if n == "operator*":
            return run.deref(o, e.get("l"))
        return NI
    if n == "operator*":
        return run.deref(o, e.get("l"))
    if n == "operator->":
        return Ptr(run.deref(o, e.get("l")))
    if n in ("operator++", "operator--"):
        d = 1 if n == "operator++" else -1
        new = ElemPtr(o.vec, add(o.idx, d))
        post = len(args) == 1
        cell.v = new
        return o if post else cell
    if n == "operator+":
        return ElemPtr(o.vec, add(o.idx, V(args[0])))
    if n == "operator-":
        a = V(args[0])
        if isinstance(a, ElemPtr):
            return run.ptr_arith("-", o, a)
        return ElemPtr(o.vec, sub(o.idx, a))
    if n == "operator+=":
        cell.v = ElemPtr(o.vec, add(o.idx, V(args[0])))
        return cell
    if n == "operator[]":
        return run.elem(o.vec, add(o.idx, V(args[0])), e.get("l"))
    if n == "base":
        return o
    return NI


# ---------------------------------------------------------------------------- strings
def str_eq(run, a, b):
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return int(ca == cb)
    if a.key() == b.key():
        return 1
    if isinstance(a.base, CharSeq) or isinstance(b.base, CharSeq):
        la, lb = a.items(), b.items()
        if la is not None and lb is not None:
            return int(len(la) == len(lb) and all(run.decide(ops.binary("==", run.char_at(a, i), run.char_at(b, i), 8, True)) for i in range(len(la))))
    if run.names is not None:
        r = run.names.eq(run, a, b)
        if r is not None:
            return r
    if cb is None and ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        # an unknown sequence against a literal: remember the answer, literals exclude each other
        ln = run.known(ops.binary("==", run.concrete(a.length), len(cb), 64, False))
        if ln is False:
            return 0
        if len(cb) == 0:
            return ops.binary("==", run.concrete(a.length), 0, 64, False)
        off = run.concrete(a.off)
        # characters already known to differ
        k = (a.base if isinstance(a.base, str) else a.base.name, off, "eq")
        st = run.streq.setdefault(k, [None, set()])
        if st[0] is not None:
            return int(st[0] == cb)
        if cb in st[1]:
            return 0
        for i, ch in enumerate(cb):
            kk = run.known(ops.binary("==", run.char_at(a, i), ops.wrap(ord(ch), 8, True), 8, True))
            if kk is False:
                st[1].add(cb)
                return 0
        if run.choose(2) == 0:
            st[0] = cb
            if not run.facts.assume(ops.binary("==", run.concrete(a.length), len(cb), 64, False), True):
                raise_end("infeasible")
            for i, ch in enumerate(cb):
                if not run.facts.assume(ops.binary("==", run.char_at(a, i), ops.wrap(ord(ch), 8, True), 8, True), True):
                    raise_end("infeasible")
            return 1
        st[1].add(cb)
        return 0
    ks = sorted((repr(a.key()), repr(b.key())))
    return Sym("streq(%s,%s)" % tuple(ks), 1)


def str_method(run, e, cell, o, n, args):
    l = e.get("l")
    c = o.concrete()
    if n in ("size", "length"):
        return o.length
    if n == "empty":
        return ops.binary("==", run.concrete(o.length), 0, 64, False)
    if n in ("operator[]", "at"):
        i = V(args[0])
        if run.on_index:
            run.on_index(run, o, i, l)
        inb = run.known(ops.binary("<", run.concrete(i), run.concrete(o.length), 64, False))
        if inb is False:
            run.event("oob", "character %s, length %s" % (run.concrete(i), run.concrete(o.length)), run.where(l))
            raise_end("out of bounds")
        v = run.char_at(o, i)
        return Cell(v) if "lv" in e else v
    if n == "front":
        nonempty(run, o, l, "front")
        return Cell(run.char_at(o, 0))
    if n == "back":
        nonempty(run, o, l, "back")
        return Cell(run.char_at(o, sub(o.length, 1)))
    if n == "substr":
        off = V(args[0]) if args else 0
        cnt = V(args[1]) if len(args) > 1 else None
        off = run.concrete(off)
        hk = run.opts.get("on_substr")
        if hk:
            hk(run, o, off, cnt, l)
        if run.known(ops.binary("<=", off, run.concrete(o.length), 64, False)) is False:
            raise throw(run, "std::out_of_range", e)
        rest = run.concrete(sub(o.length, off))
        if cnt is None or (isinstance(cnt, int) and cnt >= 1 << 62):
            ln = rest
        else:
            cnt = run.concrete(cnt)
            k = run.known(ops.binary("<=", cnt, rest, 64, False)) if not isinstance(cnt, Havoc) else None
            if k is True:
                ln = cnt
            elif k is False:
                ln = rest
            elif isinstance(cnt, Havoc):
                ln = Sym(run.fresh_name("substr-len"), 62, src="havoc")
            else:
                ln = cnt if run.decide(ops.binary("<=", cnt, rest, 64, False)) else rest
        return StrObj(e_rec(run, e), o.base, add(o.off, off), ln)
    if n in ("starts_with", "ends_with"):
        a = V(args[0])
        if isinstance(a, StrObj):
            lit = a.concrete()
            if lit is None:
                return Sym(run.fresh_name(n), 1, src="havoc")
        elif isinstance(a, int):
            lit = chr(a & 255)
        else:
            if not run.decide(ops.binary(">=", run.concrete(o.length), 1, 64, False)):
                return 0
            return ops.binary("==", run.char_at(o, 0 if n == "starts_with" else sub(o.length, 1)), a, 8, True)
        if c is not None:
            return int(c.startswith(lit) if n == "starts_with" else c.endswith(lit))
        if not run.decide(ops.binary(">=", run.concrete(o.length), len(lit), 64, False)):
            return 0
        base = 0 if n == "starts_with" else sub(o.length, len(lit))
        for i, ch in enumerate(lit):
            x = ops.binary("==", run.char_at(o, add(base, i)), ops.wrap(ord(ch), 8, True), 8, True)
            if isinstance(x, Havoc):
                return x
            if not run.decide(x):
                return 0
        return 1
    if n in ("find", "find_first_of", "find_first_not_of", "rfind", "find_last_of", "find_last_not_of"):
        a = V(args[0])
        lit = a.concrete() if isinstance(a, StrObj) else (chr(a & 255) if isinstance(a, int) else None)
        pos = V(args[1]) if len(args) > 1 else 0
        if c is not None and lit is not None and isinstance(pos, int):
            if n == "find":
                r = c.find(lit, pos)
            elif n == "rfind":
                r = c.rfind(lit)
            elif n == "find_first_of":
                r = next((i for i in range(pos, len(c)) if c[i] in lit), -1)
            elif n == "find_first_not_of":
                r = next((i for i in range(pos, len(c)) if c[i] not in lit), -1)
            elif n == "find_last_of":
                r = next((i for i in range(len(c) - 1, -1, -1) if c[i] in lit), -1)
            else:
                r = next((i for i in range(len(c) - 1, -1, -1) if c[i] not in lit), -1)
            return (1 << 64) - 1 if r < 0 else r
        if lit is not None and isinstance(pos, int) and o.items() is not None:
            return find_in(run, o, n, [ops.wrap(ord(x), 8, True) for x in lit], pos, l)
        if is_sym(a) and c is not None and n == "find" and pos == 0:
            if not run.member(a, [ops.wrap(ord(x), 8, True) for x in c]):
                return (1 << 64) - 1
            r = Sym(run.fresh_name("pos:find"), 62)
            run.facts.assume(ops.binary("<", r, len(c), 64, False), True)
            return r
        hk = run.opts.get("on_find")
        if hk:
            r = hk(run, o, n, lit, pos, e)
            if r is not NI:
                return r
        # unknown: either not found or an index inside the sequence
        if not run.decide(Sym(run.fresh_name("found:%s(%r,%s)" % (n, o, lit)), 1)):
            return (1 << 64) - 1
        r = Sym(run.fresh_name("pos:%s(%r,%s)" % (n, o, lit)), 62)
        if not run.facts.assume(ops.binary("<", r, run.concrete(o.length), 64, False), True):
            raise_end("infeasible")
        if isinstance(pos, int) or is_sym(pos):
            if n in ("find", "find_first_of", "find_first_not_of"):
                if not run.facts.assume(ops.binary(">=", r, run.concrete(pos), 64, False), True):
                    raise_end("infeasible")
        if lit is not None and len(lit) == 1 and n == "find":
            run.facts.assume(ops.binary("==", run.char_at(o, r), ops.wrap(ord(lit), 8, True), 8, True), True)
        return r
    if n == "contains":
        return Sym(run.fresh_name("contains"), 1, src="havoc")
    if n == "remove_prefix":
        k = V(args[0])
        o.off, o.length = add(o.off, k), sub(o.length, k)
        if c is not None and isinstance(k, int):
            o.base, o.off, o.length = c[k:], 0, len(c) - k
        return None
    if n == "remove_suffix":
        o.length = sub(o.length, V(args[0]))
        if c is not None and isinstance(o.length, int):
            o.base = c[:o.length]
        return None
    if n in ("data", "c_str", "begin", "cbegin"):
        if n in ("begin", "cbegin"):
            return ElemPtr(o, 0)
        return StrObj(None, o.base, o.off, o.length)
    if n in ("end", "cend"):
        return ElemPtr(o, o.length)
    if n == "operator basic_string_view" or n.startswith("operator basic_string_view") or n.startswith("operator std::basic_string_view") or n.startswith("operator __sv"):
        return StrObj(e_rec(run, e), o.base, o.off, o.length)
    if n == "operator=":
        a = V(args[0])
        if isinstance(a, StrObj):
            o.base, o.off, o.length = a.base, a.off, a.length
            return cell
        if isinstance(a, int):
            o.base, o.off, o.length = chr(a & 255), 0, 1
            return cell
        sym_string(run, o)
        return cell
    if n in ("operator+=", "append", "push_back"):
        a = V(args[0])
        t = a.concrete() if isinstance(a, StrObj) else (chr(a & 255) if isinstance(a, int) else None)
        if n == "append" and len(args) > 1:
            t = None
        its = [a] if is_sym(a) else (a.items() if isinstance(a, StrObj) and not (n == "append" and len(args) > 1) else None)
        if c is not None and t is not None:
            o.base = c + t
            o.off, o.length = 0, len(o.base)
        elif (its is not None or t is not None) and o.items() is not None:
            o.base = CharSeq(o.items() + (its if its is not None else [ord(x) for x in t]))
            o.off, o.length = 0, len(o.base.chars)
        else:
            old = o.length
            sym_string(run, o)
            if isinstance(a, StrObj) and not isinstance(old, Havoc):
                run.facts.assume(ops.binary(">=", run.concrete(o.length), run.concrete(old), 64, False), True)
        return cell if "lv" in e else None
    if n in ("clear",):
        o.base, o.off, o.length = "", 0, 0
        return None
    if n in ("resize", "reserve", "pop_back", "insert", "erase", "assign", "replace", "shrink_to_fit"):
        if n in ("reserve", "shrink_to_fit"):
            return None
        ln = V(args[0]) if n == "resize" else None
        sym_string(run, o, ln)
        return cell if "lv" in e else None
    if n == "compare":
        a = V(args[0])
        k = str_order(run, o, a) if isinstance(a, StrObj) and len(args) == 1 else None
        if k is not None:
            return k
        r = str_eq(run, o, a) if isinstance(a, StrObj) else Havoc("compare")
        if isinstance(r, int) and r:
            return 0
        return Sym(run.fresh_name("compare"), 32, True, src="havoc")
    if n in ("copy", "hash"):
        return Sym(run.fresh_name(n), 62, src="havoc")
    return NI


def find_in(run, o, n, lit, pos, l):
    """search in a sequence of known length with unknown characters"""
    size = run.concrete(o.length)
    npos = (1 << 64) - 1
    at = lambda i: run.char_at(o, i)
    if n == "find":
        for i in range(pos, size - len(lit) + 1):
            if all(run.member(at(i + k), [c]) for k, c in enumerate(lit)):
                return i
    elif n == "rfind":
        for i in range(min(pos, size - len(lit)) if pos else size - len(lit), -1, -1):
            if all(run.member(at(i + k), [c]) for k, c in enumerate(lit)):
                return i
    else:
        idx = range(pos, size) if "first" in n else range(size - 1, -1, -1)
        want = "not" not in n
        for i in idx:
            if run.member(at(i), lit) == want:
                return i
    return npos


def sym_string(run, o, ln=None):
    nm = run.fresh_name("string")
    o.base = SymStr(nm, ln if ln is not None else Sym("len(%s)" % nm, 62, src="havoc"))
    o.off, o.length = 0, o.base.length


def e_rec(run, e):
    t = run.p.strip(e["t"])
    return t.get("n")


# ---------------------------------------------------------------------------- maps
def map_find(run, o, key, e):
    """(entry cell) or None; splits when the key may or may not be present"""
    kv = V(key)
    for k, c in o.items:
        r = equal(run, k, kv)
        if isinstance(r, Havoc):
            run.note("map key comparison")
            if run.choose(2) == 0:
                return Cell(run.pair(k, c))
            continue
        if run.decide(run.truth(r)):
            return Cell(run.pair(k, c))
    if o.path is None:
        return None
    kr = keyrep(kv)
    for a in o.absent:
        if a == kr:
            return None
    present = Sym("%s has %s" % (o.path, kr), 1)
    if run.decide(present):
        nat, ta = run.p.native(o.rec)
        nm = "%s[%s]" % (o.path, kr)
        c = Cell(run.fresh(ta[1][1], nm), nm)
        o.items.append((run.copy_val(kv), c))
        return Cell(run.pair(kv, c))
    o.absent.append(kr)
    return None


def keyrep(v):
    if isinstance(v, StrObj):
        c = v.concrete()
        return repr(c) if c is not None else "%r" % (v.key(),)
    return repr(v)


def map_method(run, e, cell, o, n, args):
    if n in ("find",):
        r = map_find(run, o, args[0], e)
        return MapIt(o, r)
    if n in ("end", "cend"):
        return MapIt(o, None)
    if n in ("contains", "count"):
        return int(map_find(run, o, args[0], e) is not None)
    if n == "at":
        r = map_find(run, o, args[0], e)
        if r is None:
            raise throw(run, "std::out_of_range", e)
        return run.field(r.v, "second")
    if n == "operator[]":
        r = map_find(run, o, args[0], e)
        if r is not None:
            return run.field(r.v, "second")
        nat, ta = run.p.native(o.rec)
        c = Cell(run.default_value(ta[1][1], True))
        o.items.append((run.rvalue(args[0]), c))
        return c
    if n in ("emplace", "try_emplace", "insert", "insert_or_assign"):
        if n == "insert":
            p = V(args[0])
            if not isinstance(p, Obj):
                return NI
            k, v = run.field(p, "first").v, run.field(p, "second").v
        elif len(args) == 2:
            k, v = run.rvalue(args[0]), run.rvalue(args[1])
        else:
            return NI
        nat, ta = run.p.native(o.rec)
        v = conv(run, v, ta[1][1])
        r = map_find(run, o, Cell(k), e)
        pr = Obj("std::pair")
        if r is not None:
            if n == "insert_or_assign":
                run.store(run.field(r.v, "second"), v)
            pr.fields["first"], pr.fields["second"] = Cell(MapIt(o, r)), Cell(0)
        else:
            c = Cell(v)
            o.items.append((k, c))
            pr.fields["first"], pr.fields["second"] = Cell(MapIt(o, Cell(run.pair(k, c)))), Cell(1)
        return pr
    if n in ("clear",):
        o.items, o.path, o.absent = [], None, []
        return None
    if n == "empty":
        if o.items:
            return 0
        if o.path is None:
            return 1
        return Sym(o.path + ".empty", 1)
    if n == "size":
        if o.path is None:
            return len(o.items)
        return Sym(run.fresh_name(o.path + ".size"), 62)
    if n == "operator=":
        o.assign(run.copy_val(V(args[0])))
        return cell
    if n in ("begin", "cbegin"):
        return Havoc("map iterator")
    return NI


# ---------------------------------------------------------------------------- other external classes
def ext_method(run, e, cell, o, n, args):
    if "p" in o.fields:  # unique_ptr
        p = o.fields["p"]
        if n == "get":
            return p.v
        if n == "operator->":
            return p.v
        if n == "operator*":
            return run.deref(p.v, e.get("l"))
        if n == "operator bool":
            return run.truth(p.v)
        if n == "release":
            v = p.v
            p.v = NULL
            return v
        if n in ("reset", "operator="):
            a = V(args[0]) if args else NULL
            if isinstance(a, Ext) and "p" in a.fields:
                v = a.fields["p"].v
                a.fields["p"].v = NULL
                a = v
            p.v = a
            return cell
    hk = run.opts.get("on_ext")
    if hk:
        r = hk(run, e, cell, o, n, args)
        if r is not NI:
            return r
    if n == "operator<<" and "lv" in e:
        return cell
    if n == "new_object":
        t = run.p.strip(e["t"])
        if t["k"] == "ptr":
            return Ptr(Cell(build(run, t["to"], args, e)))
        return NI
    if n == "delete_object":
        return None
    if n in ("allocate_object", "allocate"):
        return NI
    rec = o.rec or ""
    if "source_location" in rec:
        if n in ("line", "column"):
            return Sym(run.fresh_name("srcloc"), 32)
        return StrObj(None, SymStr("file", Sym("len(file)", 62)))
    if n == "set" and "bitset" in rec:
        i = V(args[0])
        o.fields["b%r" % (run.concrete(i),)] = Cell(1)
        return cell
    if n in ("operator[]", "test") and "bitset" in rec:
        i = V(args[0])
        c = o.fields.get("b%r" % (run.concrete(i),))
        if c is not None:
            return c if "lv" in e else c.v
        if o.path and o.path.startswith("ext:"):
            return 0
        return Sym("%s[%s]" % (o.path, i), 1)
    if n == "operator bool" and "reference" in rec:
        return V(cell)
    return NI


# ---------------------------------------------------------------------------- constructors
def construct(run, e, rec, nat, ta, args):
    r = stdlib.construct(run, e, rec, nat, ta, args)
    if r is not NI:
        return r
    if nat == "optional":
        if not args:
            return OptObj(rec, ta[0][1], 0)
        a = run.rvalue(args[0])
        if isinstance(a, OptObj):
            if a.rec == rec:
                return a
            return OptObj(rec, ta[0][1], a.has, a.val, a.path)
        if isinstance(a, Ext) and (a.path == "nullopt" or "nullopt" in (a.rec or "")):
            return OptObj(rec, ta[0][1], 0)
        pt = run.p.strip(e["pt"][0]) if e.get("pt") else {}
        if "in_place" in pt.get("s", ""):
            return OptObj(rec, ta[0][1], 1, Cell(emplace_value(run, ta[0][1], e, args[1:])))
        return OptObj(rec, ta[0][1], 1, Cell(conv(run, a, ta[0][1])))
    if nat == "bitset" and not args:
        import re
        v = VecObj(rec, None, int(re.search(r"(\d+)", rec.split("bitset")[-1]).group(1)), None, "bitset")
        v.elems = {i: Cell(0) for i in range(v.length)}
        return v
    if nat == "result":
        return to_result(run, rec, ta, args, e)
    if nat == "variant":
        if not args:
            return run.mk_variant(rec, [x[1] for x in ta], 0, run.default_value(ta[0][1], True))
        return to_variant(run, rec, ta, run.rvalue(args[0]), e)
    if nat in ("vector",):
        if not args:
            return VecObj(rec, ta[0][1], 0)
        a = V(args[0])
        if len(args) >= 1 and isinstance(a, VecObj):
            v = run.copy_val(a)
            v.rec, v.kind = rec, "vector"
            v.et = ta[0][1]
            return v
        if len(args) >= 2 and isinstance(a, ElemPtr) and isinstance(V(args[1]), ElemPtr):
            v = VecObj(rec, ta[0][1], 0)
            n = run.concrete(run.ptr_arith("-", V(args[1]), a))
            if isinstance(n, int) and n < 300:
                for k in range(n):
                    v.elems[k] = Cell(run.copy_val(run.elem(a.vec, add(a.idx, k)).v))
                v.length = n
            else:
                v.length = n
            return v
        if isinstance(a, int) and e.get("pt") and run.p.strip(e["pt"][0])["k"] == "int":
            v = VecObj(rec, ta[0][1], a)
            for k in range(min(a, 300)):
                v.elems[k] = Cell(run.copy_val(V(args[1])) if len(args) > 1 and run.p.strip(e["pt"][1])["k"] != "rec" else run.default_value(ta[0][1], True))
            return v
        if is_sym(a):
            v = VecObj(rec, ta[0][1], a, run.fresh_name("vec"))
            return v
        return VecObj(rec, ta[0][1], 0)
    if nat == "span":
        if not args:
            return SpanObj(rec, VecObj(None, ta[0][1], 0), 0, 0)
        a = V(args[0])
        if len(args) == 2:
            b = V(args[1])
            if isinstance(a, ElemPtr):
                n = run.ptr_arith("-", b, a) if isinstance(b, ElemPtr) else b
                return SpanObj(rec, a.vec, a.idx, n)
            if isinstance(a, Ptr):
                v = VecObj(None, ta[0][1], b, None, "array")
                v.elems[0] = a.cell
                return SpanObj(rec, v, 0, b)
            if isinstance(a, SymPtr):
                v = VecObj(None, ta[0][1], b, "*" + a.name)
                return SpanObj(rec, v, 0, b)
            if a is NULL:
                return SpanObj(rec, VecObj(None, ta[0][1], 0), 0, 0)
        if isinstance(a, VecObj):
            return SpanObj(rec, a, 0, a.length)
        if isinstance(a, SpanObj):
            return SpanObj(rec, a.vec, a.off, a.length)
        if isinstance(a, StrObj):
            v = VecObj(None, ta[0][1], a.length, "chars(%r)" % (a,))
            return SpanObj(rec, v, 0, a.length)
        run.note("span construction")
        return SpanObj(rec, VecObj(None, ta[0][1], Sym(run.fresh_name("span.len"), 62, src="havoc"), run.fresh_name("span")), 0,
                       Sym(run.fresh_name("span.len2"), 62, src="havoc"))
    if nat in ("strview", "string"):
        if not args:
            return StrObj(rec, "")
        a = V(args[0])
        if isinstance(a, StrObj):
            if len(args) >= 2 and (isinstance(V(args[1]), int) or is_sym(V(args[1]))) and run.p.strip(e["pt"][1])["k"] == "int":
                return StrObj(rec, a.base, a.off, V(args[1]))
            return StrObj(rec, a.base, a.off, a.length)
        if isinstance(a, ElemPtr) and len(args) >= 2:
            b = V(args[1])
            n = run.ptr_arith("-", b, a) if isinstance(b, ElemPtr) else b
            if isinstance(a.vec, StrObj):
                return StrObj(rec, a.vec.base, add(a.vec.off, a.idx), n)
            hk = run.opts.get("on_view")
            if hk:
                r = hk(run, a.vec, a.idx, n)
                if r is not NI:
                    return r
            n, i = run.concrete(n), run.concrete(a.idx)
            if isinstance(a.vec, VecObj) and isinstance(n, int) and isinstance(i, int) and 0 <= n <= 4096:
                cs = [a.vec.elems.get(i + k) for k in range(n)]
                if all(c is not None and (isinstance(c.v, int) or is_sym(c.v)) for c in cs):
                    return StrObj(rec, CharSeq([c.v for c in cs]))
            return StrObj(rec, SymStr(run.fresh_name("view"), n), 0, n)
        if isinstance(a, SpanObj) or isinstance(a, VecObj):
            return StrObj(rec, SymStr(run.fresh_name("view"), a.length), 0, a.length)
        if isinstance(a, int) and len(args) >= 2 and isinstance(V(args[1]), int):
            return StrObj(rec, chr(V(args[1]) & 255) * a)
        if isinstance(a, Ext):  # allocator
            return StrObj(rec, "")
        o = StrObj(rec, "")
        sym_string(run, o)
        return o
    if nat == "map":
        m = MapObj(rec)
        for a in args[:1]:
            v = V(a)
            if isinstance(v, VecObj) and isinstance(v.length, int):
                for i in range(v.length):
                    p = run.elem(v, i).v
                    if isinstance(p, Obj):
                        m.items.append((run.field(p, "first").v, Cell(run.copy_val(run.field(p, "second").v))))
            elif isinstance(v, MapObj):
                return run.copy_val(v)
        return m
    if nat == "pair":
        o = Obj(rec)
        if len(args) == 2:
            o.fields["first"] = Cell(conv(run, run.rvalue(args[0]), ta[0][1]))
            o.fields["second"] = Cell(conv(run, run.rvalue(args[1]), ta[1][1]))
            return o
        if len(args) == 1 and isinstance(V(args[0]), Obj):
            a = V(args[0])
            o.fields["first"] = Cell(conv(run, run.copy_val(run.field(a, "first").v), ta[0][1]))
            o.fields["second"] = Cell(conv(run, run.copy_val(run.field(a, "second").v), ta[1][1]))
            return o
        if not args:
            return run.default_obj(run.p.rec_type[rec])
        return NI
    if nat == "tuple":
        o = Obj(rec)
        for i, a in enumerate(args):
            o.fields["_%d" % i] = Cell(run.rvalue(a))
        return o
    if nat == "uptr":
        o = Ext(rec, run.fresh_name("uptr"))
        p = NULL
        if args:
            a = V(args[0])
            if isinstance(a, Ext) and "p" in a.fields:
                p = a.fields["p"].v
                a.fields["p"].v = NULL
            else:
                p = a
        o.fields["p"] = Cell(p)
        return o
    if nat == "ilist":
        a = V(args[0]) if args else None
        return a if isinstance(a, VecObj) else VecObj(rec, ta[0][1], 0)
    if nat == "array":
        return run.default_obj(e["t"])
    return NI


def construct_ext(run, e, rec, args):
    r = stdlib.construct(run, e, rec, None, None, args)
    if r is not NI:
        return r
    if rec.startswith("__gnu_cxx::__normal_iterator") and args:
        return V(args[0])
    if rec.startswith("std::ranges::subrange") and len(args) == 2:
        a, b = V(args[0]), V(args[1])
        if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
            return SpanObj(rec, a.vec, a.idx, sub(b.idx, a.idx))
    if rec.startswith("std::ranges::subrange") or rec.startswith("std::ranges::transform_view"):
        a = V(args[0]) if args else None
        if isinstance(a, (ViewObj, VecObj, SpanObj)):
            return a
    if rec == "std::nullopt_t":
        return Ext(rec, "nullopt")
    return NI


# ---------------------------------------------------------------------------- free functions
def ident(run, e, args):
    return args[0] if "lv" in e else run.rvalue(args[0])


def f_addressof(run, e, args):
    c = args[0]
    return Ptr(c if isinstance(c, Cell) else Cell(c))


def tsel(run, e, o):
    """template selector of get/get_if/holds_alternative -> alternative index"""
    fta = e.get("fta") or []
    if not fta:
        return None
    k, v = fta[0]
    if k == "i":
        return v
    if k == "t":
        return run.alt_index(o, v)
    return None


def f_get(run, e, args):
    o = V(args[0])
    if isinstance(o, VariantObj):
        return run.variant_get(o, tsel(run, e, o), e.get("l"))
    if isinstance(o, Obj):
        k, v = e["fta"][0]
        if k == "i":
            return run.tuple_elem(o, v)
    if isinstance(o, Havoc):
        return Cell(Havoc("get"))
    return NI


def f_get_if(run, e, args):
    p = V(args[0])
    if p is NULL:
        run.event("null-deref", "get_if(nullptr)", run.where(e.get("l")))
        raise throw(run, "bit_manipulation::Assertion_Error", e)
    o = run.deref(p, e.get("l")).v
    if isinstance(o, VariantObj):
        i = tsel(run, e, o)
        if run.decide(ops.binary("==", run.concrete(o.idx), i, 8, False)):
            return Ptr(run.variant_cell(o, i))
        return NULL
    return NI


def f_holds(run, e, args):
    o = V(args[0])
    if isinstance(o, VariantObj):
        return ops.binary("==", run.concrete(o.idx), tsel(run, e, o), 8, False)
    return NI


def f_exchange(run, e, args):
    c = args[0]
    old = run.copy_val(c.v)
    run.store(c, run.rvalue(args[1]))
    return old


def f_swap(run, e, args):
    a, b = args[0], args[1]
    t = run.copy_val(a.v)
    run.store(a, run.copy_val(b.v))
    run.store(b, t)
    return None


def f_minmax(kind):
    def f(run, e, args):
        a, b = V(args[0]), V(args[1])
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            return Cell(Havoc("min")) if "lv" in e else Havoc("min")
        a, b = run.concrete(a), run.concrete(b)
        lt = run.decide(ops.binary("<" if kind == "min" else ">", b, a, 64, False))
        r = b if lt else a
        return Cell(r) if "lv" in e else r
    return f


def f_construct_at(run, e, args):
    p = V(args[0])
    c = run.deref(p, e.get("l"))
    if len(args) > 1:
        run.store(c, run.rvalue(args[1]))
    return p


def f_destroy_at(run, e, args):
    return None


def f_to_string(run, e, args):
    v = run.concrete(V(args[0]))
    rec = e_rec(run, e)
    if not isinstance(v, int) and run.opts.get("digits"):
        for x in parts(v)[1]:
            run.split_value(x)
        v = run.concrete(v)
    if isinstance(v, int):
        return StrObj(rec, str(v))
    o = StrObj(rec, "")
    nm = "to_string(%r)" % (v,)
    o.base = SymStr(nm, Sym("len(%s)" % nm, 8))
    run.facts.assume(ops.binary(">=", o.base.length, 1, 64, False), True)
    o.off, o.length = 0, o.base.length
    return o


def f_make_unique(run, e, args):
    fta = e.get("fta") or []
    t = fta[0][1]
    rec = e_rec(run, e)
    o = Ext(rec, run.fresh_name("uptr"))
    o.fields["p"] = Cell(Ptr(Cell(build(run, t, args, e))))
    return o


def build(run, t, args, e):
    ty = run.p.strip(t)
    if ty["k"] != "rec":
        return run.rvalue(args[0]) if args else run.zero(t)
    rec = ty["n"]
    if len(args) == 1 and isinstance(V(args[0]), Obj) and V(args[0]).rec == rec:
        return run.rvalue(args[0])
    nat, ta = run.p.native(rec)
    if nat:
        r = construct(run, {"t": t, "pt": [], "l": e.get("l")}, rec, nat, ta, args)
        if r is not NI:
            return r
    cands = [f for f in run.p.funcs.values() if f.get("ctor") and f["q"].rsplit("::", 1)[0] == rec.split("<")[0] and len(f["p"]) == len(args)]
    if len(cands) > 1:
        cands = [f for f in cands if run.args_fit(f, args)]
    if len(cands) >= 1:
        o = Obj(rec)
        c = Cell(o)
        run.call_fn(cands[0], c, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
        return c.v
    if not args:
        return run.default_obj(t)
    return emplace_value(run, t, e, args)


def f_compare_cat(op):
    def f(run, e, args):
        a = V(args[0])
        if isinstance(a, Havoc):
            return a
        a = run.concrete(a)
        if a == 2 and isinstance(a, int):
            return op == "!="
        return ops.binary(op, a, 0, 32, True)
    return f


def f_stream(run, e, args):
    if isinstance(V(args[0]), streams.Stream):
        return streams.shift(run, e, args)
    hk = run.opts.get("on_stream")
    if hk:
        r = hk(run, e, args)
        if r is not NI:
            return r
    return args[0]


def f_isalpha(run, e, args):
    return NI


FREE = {
    "std::move": ident, "std::forward": ident, "std::as_const": ident, "std::launder": ident,
    "std::forward_like": ident, "bit_manipulation::forward_like": ident,
    "std::addressof": f_addressof, "std::__addressof": f_addressof,
    "std::get": f_get, "bit_manipulation::get": f_get,
    "std::get_if": f_get_if, "bit_manipulation::get_if": f_get_if,
    "std::holds_alternative": f_holds, "bit_manipulation::holds_alternative": f_holds,
    "std::exchange": f_exchange, "std::swap": f_swap,
    "std::min": f_minmax("min"), "std::max": f_minmax("max"),
    "std::construct_at": f_construct_at, "std::destroy_at": f_destroy_at,
    "std::to_string": f_to_string, "std::make_unique": f_make_unique,
    "std::is_eq": f_compare_cat("=="), "std::is_neq": f_compare_cat("!="), "std::is_lt": f_compare_cat("<"),
    "std::is_lteq": f_compare_cat("<="), "std::is_gt": f_compare_cat(">"), "std::is_gteq": f_compare_cat(">="),
    "std::operator<<": f_stream,
    "std::setw": lambda run, e, args: streams.Manip("setw", V(args[0])),
    "std::setfill": lambda run, e, args: streams.Manip("setfill", V(args[0])),
    "std::source_location::current": lambda run, e, args: Ext("source_location"),
}
FREE_BY_NAME = {}


def f_uncaught(run, e, args):
    return run.opts.get("unwinding", 0)


FREE["std::uncaught_exceptions"] = f_uncaught


def compare(run, e, args):
    op = e["op"]
    a = V(args[0])
    b = V(args[1]) if len(args) > 1 else None
    if isinstance(a, (int,)) and isinstance(b, Ext) and "__unspec" in (b.rec or ""):
        return ops.binary(op, a, 0, 32, True)
    if isinstance(a, Ext) and "__unspec" in (a.rec or "") and isinstance(b, int):
        return ops.binary(op, 0, b, 32, True)
    if op in ("==", "!="):
        if isinstance(a, MapIt) or isinstance(b, MapIt):
            ea = a.entry.v.fields["second"] if isinstance(a, MapIt) and a.entry is not None else None
            eb = b.entry.v.fields["second"] if isinstance(b, MapIt) and b.entry is not None else None
            r = int(ea is eb)
        elif isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
            return run.ptr_arith(op, a, b)
        else:
            r = equal(run, a, b)
        if op == "!=":
            return ops.unary("!", run.truth(r), 1, False) if not isinstance(r, Havoc) else r
        return r
    if isinstance(a, ElemPtr) or isinstance(b, ElemPtr):
        return run.ptr_arith(op, a, b)
    if isinstance(a, StrObj) and isinstance(b, StrObj):
        ca, cb = a.concrete(), b.concrete()
        if op == "+":
            if ca is not None and cb is not None:
                return StrObj(e_rec(run, e), ca + cb)
            o = StrObj(e_rec(run, e), "")
            sym_string(run, o, add(a.length, b.length))
            return o
        if ca is not None and cb is not None:
            s = (ca > cb) - (ca < cb)
            if op == "<=>":
                return s
            return ops.binary(op, s, 0, 32, True)
        k = str_order(run, a, b)
        if k is not None:
            return k if op == "<=>" else ops.binary(op, k, 0, 32, True)
        if op == "<=>":
            ks = (repr(a.key()), repr(b.key()))
            x = Sym("strcmp(%s,%s)" % ks, 2, True)
            run.facts.dom.setdefault(x, run.facts.domain(x).only([-1, 0, 1]))
            return x
        ks = (repr(a.key()), repr(b.key()))
        x = Sym("strcmp(%s,%s)" % ks, 2, True)
        return ops.binary(op, x, 0, 32, True)
    if op == "+" and (isinstance(a, StrObj) or isinstance(b, StrObj)):
        o = StrObj(e_rec(run, e), "")
        ca = a.concrete() if isinstance(a, StrObj) else (chr(a & 255) if isinstance(a, int) else None)
        cb = b.concrete() if isinstance(b, StrObj) else (chr(b & 255) if isinstance(b, int) else None)
        if ca is not None and cb is not None:
            return StrObj(e_rec(run, e), ca + cb)
        sym_string(run, o)
        return o
    if op == "<=>" and isinstance(a, Obj) and type(a) is Obj and e.get("defd"):
        for f in run.all_fields(a.rec):
            x, y = run.field(a, f["n"]).v, run.field(b, f["n"]).v
            if (isinstance(x, int) or is_sym(x)) and (isinstance(y, int) or is_sym(y)):
                if run.decide(ops.binary("==", run.concrete(x), run.concrete(y), 64, True)):
                    continue
                return -1 if run.decide(ops.binary("<", run.concrete(x), run.concrete(y), 64, True)) else 1
            return Havoc("three-way comparison")
        return 0
    return NI


def str_order(run, a, b):
    """lexicographic order (-1, 0, 1) of sequences of known length, None otherwise"""
    la, lb = a.items(), b.items()
    if la is None or lb is None:
        return None
    for i in range(min(len(la), len(lb))):
        x, y = run.char_at(a, i), run.char_at(b, i)
        if not isinstance(y, int) and isinstance(x, int):
            r = char_below(run, y, x)
            r = None if r is None else -r
        else:
            r = char_below(run, x, y)
        if r is None:
            return None
        if r:
            return r
    return (len(la) > len(lb)) - (len(la) < len(lb))


def char_below(run, x, y):
    """order of two characters as unsigned characters"""
    if isinstance(x, int) and isinstance(y, int):
        x, y = x & 255, y & 255
        return (x > y) - (x < y)
    if not isinstance(y, int):
        return None
    if run.member(x, [y]):
        return 0
    return -1 if run.member(x, [ops.wrap(v, 8, True) for v in range(0, y & 255)]) else 1


# ---------------------------------------------------------------------------- ranges
def ranges_call(run, e, args):
    n = e["n"]
    q = e["q"]
    vals = [V(a) for a in args]
    if "views" in q or "__adaptor" in q:
        if n == "operator()" and "_Transform" in q:
            if len(vals) == 2:
                return ViewObj(e_rec(run, e), "transform", vals[0], vals[1])
            if len(vals) == 1:
                return ViewObj(e_rec(run, e), "transform-closure", None, vals[0])
        if n == "operator()" and "_Reverse" in q:
            return ViewObj(e_rec(run, e), "reverse", vals[0])
        if n == "operator|":
            c = vals[1]
            if isinstance(c, ViewObj):
                return ViewObj(e_rec(run, e), "transform", vals[0], c.fn)
            return ViewObj(e_rec(run, e), "reverse", vals[0])
    return NI


# ---------------------------------------------------------------------------- iterator based algorithms
def as_range(run, v):
    """a vector-like object for a range argument"""
    if isinstance(v, (VecObj, SpanObj, ViewObj, StrObj)):
        return v
    return None


def rng_len(v):
    return v.length


def begin_of(run, e, args):
    v = V(args[0])
    if isinstance(v, (VecObj, SpanObj, ViewObj)):
        return ElemPtr(v, 0)
    if isinstance(v, StrObj):
        return str_method(run, e, args[0], v, "begin", [])
    return NI


def end_of(run, e, args):
    v = V(args[0])
    if isinstance(v, (VecObj, SpanObj, ViewObj)):
        return ElemPtr(v, v.length)
    if isinstance(v, StrObj):
        return str_method(run, e, args[0], v, "end", [])
    return NI


def size_of(run, e, args):
    v = V(args[0])
    if isinstance(v, (VecObj, SpanObj, ViewObj, StrObj)):
        return v.length
    return NI


def empty_of(run, e, args):
    v = V(args[0])
    if isinstance(v, (VecObj, SpanObj, ViewObj, StrObj)):
        return ops.binary("==", run.concrete(v.length), 0, 64, False)
    return NI


def span_args(run, args):
    """(cells iterator, begin pointer, remaining args) for (range, ...) or (first, last, ...)"""
    a = V(args[0])
    if isinstance(a, ElemPtr) and len(args) > 1 and isinstance(V(args[1]), ElemPtr):
        b = V(args[1])
        va, ia = run.base_of(a)
        vb, ib = run.base_of(b)
        if va is not vb:
            return None
        n = sub(b.idx, a.idx)
        return a, n, args[2:]
    if isinstance(a, StrObj) and len(args) > 1 and isinstance(V(args[1]), StrObj) and V(args[1]).base == a.base and \
            isinstance(V(args[1]).length, int) is False and False:
        return None
    if isinstance(a, (VecObj, SpanObj, ViewObj)):
        return ElemPtr(a, 0), a.length, args[1:]
    return None


def seq(run, p, n, line):
    i = 0
    st = [0, 0, False]
    while run.loop_guard(ops.binary("<", i, run.concrete(n), 64, False), st):
        yield i, run.elem(p.vec, add(p.idx, i), line)
        i += 1


def pred(run, fn, c, line):
    return run.decide(run.truth(V(run.apply(fn, [c], line))))


def algo(kind):
    def f(run, e, args):
        s = span_args(run, args)
        if s is None:
            return NI
        p, n, rest = s
        l = e.get("l")
        if kind in ("any_of", "all_of", "none_of"):
            want = kind != "all_of"
            for _, c in seq(run, p, n, l):
                if pred(run, V(rest[0]), c, l) == want:
                    return int(kind == "any_of")
            return int(kind != "any_of")
        if kind in ("find_if", "find_if_not"):
            for i, c in seq(run, p, n, l):
                if pred(run, V(rest[0]), c, l) == (kind == "find_if"):
                    return ElemPtr(p.vec, add(p.idx, i))
            return ElemPtr(p.vec, add(p.idx, n))
        if kind in ("find", "contains", "count", "count_if"):
            proj = V(rest[1]) if len(rest) > 1 else None
            k = 0
            for i, c in seq(run, p, n, l):
                if proj is not None:
                    v = run.apply(proj, [c], l)
                    c = v if isinstance(v, Cell) else Cell(v)
                hit = pred(run, V(rest[0]), c, l) if kind == "count_if" else run.decide(run.truth(equal(run, c, rest[0])))
                if hit:
                    if kind == "find":
                        return ElemPtr(p.vec, add(p.idx, i))
                    if kind == "contains":
                        return 1
                    k += 1
            return ElemPtr(p.vec, add(p.idx, n)) if kind == "find" else 0 if kind == "contains" else k
        if kind in ("lower_bound", "upper_bound"):
            # the halving of the library, so that a range which is not sorted shows
            n = run.concrete(n)
            if not isinstance(n, int):
                return NI
            comp = V(rest[1]) if len(rest) > 1 else None
            proj = V(rest[2]) if len(rest) > 2 else None
            i = 0
            while n > 0:
                half = n >> 1
                c = run.elem(p.vec, add(p.idx, i + half), l)
                if isinstance(proj, Obj) and not isinstance(proj, Closure) and "identity" in (proj.rec or ""):
                    proj = None
                if proj is not None:
                    v = run.apply(proj, [c], l)
                    c = v if isinstance(v, Cell) else Cell(v)
                x, y = (c, rest[0]) if kind == "lower_bound" else (rest[0], c)
                if comp is None or isinstance(comp, Obj) and not isinstance(comp, Closure) and ("ranges::less" in (comp.rec or "") or "std::less" in (comp.rec or "")):
                    r = compare(run, {"op": "<", "t": e.get("t"), "l": l}, [x, y])
                    if r is NI:
                        r = ops.binary("<", run.concrete(V(x)), run.concrete(V(y)), 64, True)
                    less = run.decide(run.truth(r))
                else:
                    r = run.apply(comp, [x, y], l)
                    less = run.decide(run.truth(V(r)))
                if less == (kind == "lower_bound"):
                    i, n = i + half + 1, n - half - 1
                else:
                    n = half
            return ElemPtr(p.vec, add(p.idx, i))
        if kind == "for_each":
            for _, c in seq(run, p, n, l):
                run.apply(V(rest[0]), [c], l)
            return V(rest[0])
        if kind == "fill":
            for _, c in seq(run, p, n, l):
                run.store(c, run.rvalue(rest[0]))
            return None
        if kind == "reverse":
            n = run.concrete(n)
            if isinstance(n, int):
                cs = [run.elem(p.vec, add(p.idx, i), l) for i in range(n)]
                vs = [run.copy_val(c.v) for c in cs]
                for c, v in zip(cs, reversed(vs)):
                    run.store(c, v)
                return ElemPtr(p.vec, add(p.idx, n))
        return NI
    return f


def f_next(d):
    def f(run, e, args):
        p = V(args[0])
        k = V(args[1]) if len(args) > 1 else 1
        if isinstance(p, ElemPtr):
            return ElemPtr(p.vec, add(p.idx, k) if d > 0 else sub(p.idx, k))
        if isinstance(p, StrObj):
            return StrObj(p.rec, p.base, add(p.off, k) if d > 0 else sub(p.off, k), sub(p.length, k) if d > 0 else add(p.length, k))
        return NI
    return f


def f_distance(run, e, args):
    a, b = V(args[0]), V(args[1])
    if isinstance(a, ElemPtr) and isinstance(b, ElemPtr):
        return run.ptr_arith("-", b, a)
    return NI


def f_invoke(run, e, args):
    r = run.apply(V(args[0]), args[1:], e.get("l"))
    if "lv" in e:
        return r if isinstance(r, Cell) else Cell(r)
    return run.rvalue(r)


ALGOS = {k: algo(k) for k in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "find", "contains", "count", "count_if",
                              "for_each", "fill", "reverse", "lower_bound", "upper_bound")}
for _k, _f in ALGOS.items():
    FREE["std::" + _k] = _f
FREE.update({"std::begin": begin_of, "std::cbegin": begin_of, "std::end": end_of, "std::cend": end_of, "std::size": size_of,
             "std::ssize": size_of, "std::empty": empty_of, "std::next": f_next(1), "std::prev": f_next(-1),
             "std::distance": f_distance, "std::invoke": f_invoke, "std::__invoke": f_invoke})


def ranges_object(run, e, args):
    """function objects of namespace std::ranges"""
    q = e["q"]
    n = e["n"]
    if n != "operator()":
        return NI
    for k, f in (("_Begin", begin_of), ("_End", end_of), ("_CBegin", begin_of), ("_CEnd", end_of), ("_Size", size_of),
                 ("_SSize", size_of), ("_Empty", empty_of)):
        if "::__cust_access::" + k + "::" in q or "::__access::" + k + "::" in q or "::" + k + "::operator()" in q:
            return f(run, e, args)
    for k, f in ALGOS.items():
        if "__%s_fn::" % k in q or "_%s_fn::" % k.title() in q:
            return f(run, e, args)
    return NI
