"""Helpers shared by the checks: anchors by qualified name and parameter types, building abstract values through the
repository's own constructors and reading them through its own accessors."""
from .interp import *  # noqa
from .interp import Program, Run, Path, explore, ThrowEx, PathEnd, TooManyPaths, rel, short
from .terms import Sym, App, Lin, Cond, add, sub, scale, is_sym, parts
from . import ops
from .values import Cell, Ptr, ElemPtr, SymPtr, NULL, UNINIT, Havoc, FnRef, Obj, Closure, VariantObj, OptObj, ResultObj, \
    VecObj, SpanObj, SymStr, CharSeq, StrObj, MapObj, ViewObj, Ext
from .extract import AnalysisBroken


def tname(P, t):
    s = P.strip(t)["s"]
    return s[6:] if s.startswith("const ") else s


def match_type(P, t, want):
    s = tname(P, t)
    return s == want or s.endswith("::" + want)


def fn_by(P, q, params, this=None):
    """function by qualified name (suffix) and parameter type names (suffixes); None matches anything"""
    out = []
    for k, l in P.by_q.items():
        if k == q or k.endswith("::" + q):
            for f in l:
                if len(f["p"]) == len(params) and all(w is None or match_type(P, p["t"], w) for p, w in zip(f["p"], params)):
                    out.append(f)
    if len(out) != 1:
        raise AnalysisBroken("anchor %s(%s): %d candidates" % (q, ", ".join(map(str, params)), len(out)))
    return out[0]


def has_fn(P, q):
    return any(k == q or k.endswith("::" + q) for k in P.by_q)


def invoke(run, f, args, this=None):
    """call a repository function with values/cells"""
    v = run.call_fn(f, this, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
    return v.v if isinstance(v, Cell) else v


def construct(run, rec, params, args):
    """object of a record type through the constructor with the given parameter type names"""
    P = run.p
    rec = P.record(rec)
    c = [f for f in P.funcs.values() if f.get("ctor") and f.get("rec") is not None and P.types[f["rec"]]["n"] == rec and len(f["p"]) == len(params)
         and all(w is None or match_type(P, p["t"], w) for p, w in zip(f["p"], params))]
    if len(c) != 1:
        raise AnalysisBroken("constructor of %s(%s): %d candidates" % (rec, params, len(c)))
    o = Cell(Obj(rec))
    run.call_fn(c[0], o, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
    return o.v


def method(run, obj, name, args=(), nparams=None):
    """call a (possibly inherited) method by name on a value or cell"""
    P = run.p
    cell = obj if isinstance(obj, Cell) else Cell(obj)
    rec = cell.v.rec
    seen = []
    todo = [rec]
    while todo:
        r = todo.pop(0)
        rr = P.records.get(r)
        if rr is None:
            continue
        for m in rr["methods"]:
            if m["n"] == name and m["f"] in P.funcs and len(P.funcs[m["f"]]["p"]) == len(args):
                seen.append(P.funcs[m["f"]])
        if seen:
            break
        todo += [P.types[b]["n"] for b in rr["bases"] if P.types[b]["k"] == "rec"]
    if not seen:
        raise AnalysisBroken("method %s of %s not found" % (name, rec))
    f = seen[0]
    for x in seen:
        if not P.types[x["rt"]]["k"] in ("ref",) or True:
            f = x
            break
    v = run.call_fn(f, cell, [a if isinstance(a, Cell) else Cell(a) for a in args], by_decl=True)
    return v.v if isinstance(v, Cell) else v


def explain(run, limit=10):
    """path conditions, printable"""
    return "; ".join("%s=%s" % (c, r) for c, r in run.path_conds[-limit:])


def result_state(run, r):
    """('ok', value) / ('err', value) of a Result value (splitting when undetermined)"""
    if not isinstance(r, ResultObj):
        raise AnalysisBroken("expected a Result, got %r" % (r,))
    if run.decide(r.has):
        return "ok", (None if run.type(r.vt)["k"] == "void" else run.result_get(r).v)
    return "err", run.result_err(r).v


def parallel(ctx, items, fn):
    """fn(ctx, item) for all items on several processes; what they find is merged in the order of the items"""
    import os
    import multiprocessing
    global _JOB
    items = list(items)
    n = min(len(os.sched_getaffinity(0)), 8, max(1, len(items) // 4))
    if n <= 1:
        for x in items:
            fn(ctx, x)
        return
    _JOB = (ctx, items, fn)
    mp = multiprocessing.get_context("fork")
    with mp.Pool(n) as pool:
        for r in pool.imap(_job, range(len(items))):
            _merge(ctx, r)
    if getattr(ctx, "failed", None):
        raise AnalysisBroken(ctx.failed)


def _merge(ctx, r):
    if "error" in r:
        ctx.failed = r["error"]
    ctx.obligations += r["obligations"]
    for k, v in r["counts"].items():
        ctx.count(k, v)
    for k, m in r["violations"]:
        ctx.violate(k, m)
    for x in r["samples"]:
        if len(ctx.samples) < 12:
            ctx.samples.append(x)
    ctx.units |= r["units"]
    ctx.undecided.update(r["undecided"])
    ctx.assumptions += [a for a in r["assumptions"] if a not in ctx.assumptions]
    for k, v in r["stats"].items():
        if isinstance(v, int):
            ctx.stats[k] = ctx.stats.get(k, 0) + v


def _job(i):
    import sys
    sys.setrecursionlimit(20000)
    ctx, items, fn = _JOB
    c = type(ctx)(ctx.pid, ctx.p, ctx.tier)
    out = {}
    try:
        fn(c, items[i])
    except Exception as ex:
        if not c.violations:
            out["error"] = "%s: %s" % (type(ex).__name__, ex)
            import os
            if os.environ.get("BMSA_TRACE"):
                import traceback
                traceback.print_exc()
    out.update(obligations=c.obligations, counts=c.counts, violations=c.violations, samples=c.samples, units=c.units, undecided=c.undecided,
               stats=c.stats, assumptions=c.assumptions)
    return out
