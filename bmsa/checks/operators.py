"""C01-C04: the operator core of the language (type rules, evaluation of known and partially known operands).

The public functions that check and evaluate operators are analysed for every operator, every combination of operand
types (Void, Bool, Int, Uint of every width) and unconstrained operand values.  The value of a successful evaluation is
a term over the operands which is compared with the documented operation modulo 2^width.
"""
import multiprocessing
import os

from ..lib import *  # noqa
from ..lib import fn_by, invoke, construct, method, explain, result_state, ops, Sym, App, Lin, Cond, add, sub, scale, \
    is_sym, parts, Cell, Obj, Havoc, VecObj, SpanObj, explore, AnalysisBroken, short, Ext

VOID, BOOL, INT, UINT = "Void", "Bool", "Int", "Uint"

UNARY = {"unary_plus", "unary_minus", "logical_not", "bitwise_not"}
ARITH = {"binary_plus", "binary_minus", "multiplication", "division", "remainder"}
BITWISE = {"bitwise_and", "bitwise_or", "bitwise_xor", "shift_left", "shift_right"}
LOGICAL = {"logical_and", "logical_or"}
EQ = {"equals", "not_equals"}
REL = {"less_than", "greater_than", "less_or_equal", "greater_or_equal"}
BINARY = ARITH | BITWISE | LOGICAL | EQ | REL
M128 = 1 << 128


# ---------------------------------------------------------------------------------------------------- the rules
def unary_rule(op, t):
    """('ok', type) or ('err', code) for the documented typing of a unary operator"""
    if op not in UNARY:
        return "err", "invalid_operator"
    k = t[0]
    if k == VOID:
        return "err", "void_operation"
    if k == BOOL:
        if op == "logical_not":
            return "ok", t
        return "err", "bool_bitwise" if op == "bitwise_not" else "bool_arithmetic"
    if k == INT:
        if op in ("unary_plus", "unary_minus"):
            return "ok", t
        return "err", "int_bitwise" if op == "bitwise_not" else "int_logical"
    if op == "logical_not":
        return "err", "uint_logical"
    return "ok", t


def common_rule(l, r, same_width):
    if l[0] == r[0]:
        if l[0] == UINT and not same_width:
            return "err", "incompatible_widths"
        return "ok", l
    if {l[0], r[0]} == {INT, UINT}:
        return "ok", l if l[0] == UINT else r
    return "err", "incompatible_types"


def binary_rule(op, l, r, same_width):
    if op not in BINARY:
        return "err", "invalid_operator"
    if VOID in (l[0], r[0]):
        return "err", "void_operation"
    s, c = common_rule(l, r, same_width)
    if s == "err":
        return s, c
    k = c[0]
    if k == BOOL:
        if op in ARITH:
            return "err", "bool_arithmetic"
        if op in BITWISE:
            return "err", "bool_bitwise"
        if op in REL:
            return "err", "bool_relational_comparison"
        return "ok", (BOOL, 0)
    if k == INT:
        if op in BITWISE:
            return "err", "int_bitwise"
        if op in LOGICAL:
            return "err", "int_logical"
    elif op in LOGICAL:
        return "err", "uint_logical"
    return "ok", (BOOL, 0) if op in EQ | REL else c


def if_rule(l, c, r, same_width):
    if c[0] != BOOL:
        return "err", "condition_not_bool"
    return common_rule(l, r, same_width)


# ---------------------------------------------------------------------------------------------------- building states
class Env:
    def __init__(self, P):
        self.P = P
        self.tt = P.enum("bms::Type_Type")
        self.et = P.enum("bms::Expression_Type")
        self.ac = P.enum("bms::Analysis_Error_Code")
        self.ec = P.enum("bms::Evaluation_Error_Code")
        self.bf = P.enum("bms::Builtin_Function")
        for k in (VOID, BOOL, INT, UINT):
            if k not in self.tt:
                raise AnalysisBroken("type kind %s" % k)
        for o in BINARY | UNARY:
            if o not in self.et:
                raise AnalysisBroken("operator %s" % o)
        CV, CT, V = "bms::Concrete_Value", "bms::Concrete_Type", "bms::Value"
        E = "bms::Expression_Type"
        self.chk_un = fn_by(P, "bms::check_unary_operator", [E, CT])
        self.chk_bin = fn_by(P, "bms::check_binary_operator", [CT, E, CT])
        self.chk_if = fn_by(P, "bms::check_if_expression", [CT, CT, CT])
        self.common = fn_by(P, "bms::get_common_type", [CT, CT])
        self.ev_un = fn_by(P, "bms::evaluate_unary_operator", [E, CV])
        self.ev_bin = fn_by(P, "bms::evaluate_binary_operator", [CV, E, CV])
        self.ev_if = fn_by(P, "bms::evaluate_if_expression", [CV, CV, CV])
        self.ev_conv = fn_by(P, "bms::evaluate_conversion", [CV, CT])
        self.vv_un = fn_by(P, "bms::evaluate_unary_operator", [E, V])
        self.vv_bin = fn_by(P, "bms::evaluate_binary_operator", [V, E, V])
        self.vv_if = fn_by(P, "bms::evaluate_if_expression", [V, V, V])
        self.vv_conv = fn_by(P, "bms::evaluate_conversion", [V, CT])
        self.rtype = {v: k for k, v in self.tt.items()}

    def mk_type(self, run, t):
        """Concrete_Type for ('Uint', width) etc."""
        return construct(run, "bms::Concrete_Type", ["Type_Type", None], [self.tt[t[0]], t[1]])

    def rd_type(self, run, o):
        k = run.split_value(method(run, o, "type"))
        w = run.concrete(method(run, o, "width"))
        return self.rtype.get(k, str(k)), w

    def mk_cval(self, run, t, name):
        """Concrete_Value of a type with an unconstrained member of that type"""
        v = self.val_sym(run, t, name)
        return construct(run, "bms::Concrete_Value", ["Concrete_Type", None], [self.mk_type(run, t), v]), v

    def val_sym(self, run, t, name):
        k, w = t
        if k == VOID:
            return 0
        if k == BOOL:
            return run.split_value(Sym(name, 1))
        s = Sym(name, 128, True)
        if k == UINT and w < 128:
            run.facts.assume(ops.binary(">=", s, 0, 128, True), True)
            run.facts.assume(ops.binary("<=", s, (1 << w) - 1, 128, True), True)
            return run.concrete(s)
        return s

    def mk_val(self, run, t, name, known):
        if known:
            c, v = self.mk_cval(run, t, name)
            return construct(run, "bms::Value", ["Concrete_Value"], [c]), v
        f = fn_by(self.P, "bms::Value::unknown_of_type", ["Concrete_Type"])
        return invoke(run, f, [self.mk_type(run, t)]), None

    def code(self, table, run, v):
        v = run.split_value(v)
        for n, x in table.items():
            if x == v:
                return n
        return str(v)


# ---------------------------------------------------------------------------------------------------- C01
def check_typing(ctx):
    P = ctx.p
    E = Env(P)
    ctx.rule("for every operator, every pair (triple) of operand types with unconstrained widths in [1,128], the type-checking "
             "functions accept exactly the documented combinations, yield the documented result type, and name the documented "
             "error otherwise")
    W1, W2 = Sym("w1", 32, True), Sym("w2", 32, True)

    def width(run, s):
        run.facts.assume(ops.binary(">=", s, 1, 32, True), True)
        run.facts.assume(ops.binary("<=", s, 128, 32, True), True)
        return s

    def types(run, kinds):
        out = []
        n = 0
        for k in kinds:
            if k == UINT:
                out.append((UINT, width(run, (W1, W2, Sym("w3", 32, True))[n])))
            else:
                out.append((k, 0))
            n += 1
        return out

    def judge(run, what, res, want, key):
        st, v = result_state(run, res)
        if st == "ok":
            k, w = E.rd_type(run, v)
            got = ("ok", (k, w))
        else:
            got = ("err", E.code(E.ac, run, v))
        if want[0] == "ok":
            same = got[0] == "ok" and got[1][0] == want[1][0] and (
                want[1][0] != UINT or run.facts.decide(ops.binary("==", got[1][1], want[1][1], 32, True)) is True)
        else:
            same = got == want
        ctx.ok(same, key, "%s: analysis of %s yields %s, the language rule is %s [%s]" % (what, what, got, want, explain(run)),
               sample="%s -> %s" % (what, got))

    def go(entry, key):
        for p in explore(P, entry, stats=ctx.stats):
            ctx.saw(p.run)
            if p.kind == "throw":
                ctx.ok(False, key + ":throws", "%s raises %s (%s)" % (key, p.exc, explain(p.run)))
            elif p.kind == "end" and p.why not in ("infeasible",):
                ctx.ok(False, key + ":" + p.why, "%s: %s; events %s" % (key, p.why, p.run.trace[-2:]))
            elif p.run.notes:
                ctx.undecide(key, str(p.run.notes[:2]))

    kinds = (VOID, BOOL, INT, UINT)
    for opn, opv in sorted(E.et.items()):
        for k in kinds:
            key = "unary %s %s" % (opn, k)

            def entry(run):
                t, = types(run, [k])
                r = invoke(run, E.chk_un, [opv, E.mk_type(run, t)])
                judge(run, key, r, unary_rule(opn, t), key)
            go(entry, key)
            ctx.count("unary combinations")
            for k2 in kinds:
                key2 = "binary %s %s %s" % (k, opn, k2)

                def entry(run):
                    l, r = types(run, [k, k2])
                    same = run.decide(ops.binary("==", l[1], r[1], 32, True)) if k == k2 == UINT else True
                    res = invoke(run, E.chk_bin, [E.mk_type(run, l), opv, E.mk_type(run, r)])
                    judge(run, key2, res, binary_rule(opn, l, r, same), key2)
                go(entry, key2)
                ctx.count("binary combinations")
    for k in kinds:
        for k2 in kinds:
            key = "common type %s %s" % (k, k2)

            def entry(run):
                l, r = types(run, [k, k2])
                same = run.decide(ops.binary("==", l[1], r[1], 32, True)) if k == k2 == UINT else True
                judge(run, key, invoke(run, E.common, [E.mk_type(run, l), E.mk_type(run, r)]), common_rule(l, r, same), key)
            go(entry, key)
            key2 = "convertible %s to %s" % (k, k2)

            def entry(run):
                l, r = types(run, [k, k2])
                same = run.decide(ops.binary("==", l[1], r[1], 32, True)) if k == k2 == UINT else True
                got = run.decide(method(run, E.mk_type(run, l), "is_convertible_to", [E.mk_type(run, r)]))
                want = (k == k2 and same) or (k == INT and k2 == UINT)
                ctx.ok(got == want, key2, "%s: implicit conversion reported as %s, rule says %s" % (key2, got, want))
            go(entry, key2)
            for kc in kinds:
                key3 = "if-expression %s if %s else %s" % (k, kc, k2)

                def entry(run):
                    l, c, r = types(run, [k, kc, k2])
                    same = run.decide(ops.binary("==", l[1], r[1], 32, True)) if k == k2 == UINT else True
                    judge(run, key3, invoke(run, E.chk_if, [E.mk_type(run, l), E.mk_type(run, c), E.mk_type(run, r)]),
                          if_rule(l, c, r, same), key3)
                go(entry, key3)
                ctx.count("if combinations")
    # built-in functions: assert takes exactly one Bool and yields Void
    sp = [f for f in P.fn("bms::check_builtin_function", n=None)]
    for f in sp:
        et = tname_elem(P, f["p"][1]["t"])
        for n in (0, 1, 2):
            for k in kinds:
                key = "assert with %d arguments, first %s (%s)" % (n, k, short(et))

                def entry(run):
                    vec = VecObj(None, f["p"][1]["t"], n)
                    w, = types(run, [k])
                    for i in range(n):
                        if et.endswith("Concrete_Type"):
                            o = E.mk_type(run, w)
                        elif et.endswith("Concrete_Value"):
                            o = construct(run, "bms::Concrete_Value", ["Concrete_Type", None], [E.mk_type(run, w), 0])
                        else:
                            o = invoke(run, fn_by(P, "bms::Value::unknown_of_type", ["Concrete_Type"]), [E.mk_type(run, w)])
                        vec.elems[i] = Cell(o)
                    s = SpanObj(P.types[f["p"][1]["t"]].get("n"), vec, 0, n)
                    r = invoke(run, f, [E.bf["assert"], s])
                    want = ("err", "wrong_number_of_arguments") if n != 1 else ("ok", (VOID, 0)) if k == BOOL else (
                        "err", "wrong_argument_type")
                    judge(run, key, r, want, key)
                go(entry, key)
                ctx.count("builtin combinations")
    ctx.need("binary combinations", 16 * len(BINARY))
    ctx.need("unary combinations", 4 * 4)
    ctx.need("if combinations", 64)
    ctx.need("builtin combinations", 12)


def tname_elem(P, t):
    ty = P.strip(t)
    ta = ty.get("ta") or P.records.get(ty["n"], {}).get("ta")
    s = P.types[ta[0][1]]["s"]
    return s[6:] if s.startswith("const ") else s


# ---------------------------------------------------------------------------------------------------- terms modulo 2^w
def canon(run, t, w):
    """linear normal form of a term modulo 2^w: (constant, {atom: coefficient})"""
    m = (1 << w) - 1
    c, d = 0, {}

    def acc(k, x):
        nonlocal c
        if isinstance(x, int):
            c = (c + k * x) & m
            return
        if isinstance(x, Lin):
            c = (c + k * x.c) & m
            for a, q in x.t:
                acc(k * q, a)
            return
        if isinstance(x, App):
            a = x.args
            if x.op == "+":
                acc(k, a[0])
                acc(k, a[1])
                return
            if x.op == "-":
                acc(k, a[0])
                acc(-k, a[1])
                return
            if x.op == "neg":
                acc(-k, a[0])
                return
            if x.op == "~":
                acc(-k, a[0])
                c = (c - k) & m
                return
            if x.op == "cast" and x.bits >= w:
                acc(k, a[0])
                return
            if x.op == "*":
                for p, q in (a, a[::-1]):
                    if isinstance(p, int):
                        acc(k * p, q)
                        return
                atom = ("*",) + tuple(sorted((canon(run, a[0], w), canon(run, a[1], w)), key=repr))
            elif x.op == "&":
                for p, q in (a, a[::-1]):
                    if isinstance(p, int) and p & m == m:
                        acc(k, q)
                        return
                atom = ("&",) + tuple(sorted((canon(run, a[0], w), canon(run, a[1], w)), key=repr))
            elif x.op == "^":
                for p, q in (a, a[::-1]):
                    if isinstance(p, int) and p & m == m:
                        acc(-k, q)
                        c = (c - k) & m
                        return
                atom = ("^",) + tuple(sorted((canon(run, a[0], w), canon(run, a[1], w)), key=repr))
            elif x.op == "|":
                atom = ("|",) + tuple(sorted((canon(run, a[0], w), canon(run, a[1], w)), key=repr))
            elif x.op == "<<":
                if isinstance(a[1], int):
                    acc(k << a[1], a[0])
                    return
                atom = ("<<", canon(run, a[0], w), exact(run, a[1]))
            elif x.op in ("/", "%", ">>"):
                if x.op == "%" and isinstance(a[1], int) and a[1] > 0 and a[1] & (a[1] - 1) == 0 and a[1] & m == 0 \
                        and run.facts.bounds(a[0] if not isinstance(a[0], int) else Lin(a[0], ()))[0] >= 0:
                    acc(k, a[0])
                    return
                atom = (x.op, exact(run, a[0]), exact(run, a[1]))
                if x.op == "%":
                    # x % y = x - x / y * y
                    q = ("/",) + atom[1:]
                    acc(k, a[0])
                    if isinstance(a[1], int):
                        d[q] = d.get(q, 0) - k * a[1]
                        return
                    k = -k
                    atom = ("*",) + tuple(sorted(((0, ((q, 1),)), canon(run, a[1], w)), key=repr))
            else:
                atom = ("?", repr(x))
            d[atom] = d.get(atom, 0) + k
            return
        d[("v", repr(x))] = d.get(("v", repr(x)), 0) + k
    acc(1, run.facts.norm(t) if is_sym(t) else t)
    return c, tuple(sorted(((a, k & m) for a, k in d.items() if k & m), key=repr))


def exact(run, t):
    t = run.concrete(t)
    if isinstance(t, App) and t.op == "&":
        for p, q in (t.args, t.args[::-1]):
            if isinstance(p, int) and p > 0 and p & (p + 1) == 0 and is_sym(q):
                lo, hi = run.facts.bounds(q)
                if lo >= 0 and hi <= p:
                    return exact(run, q)
    if isinstance(t, App) and t.op in ("+", "-", "*", "&", "|", "^", "neg", "~", "<<"):
        return ("mod128", canon(run, t, 128))
    if isinstance(t, App) and t.op in ("/", "%", ">>"):
        return (t.op, exact(run, t.args[0]), exact(run, t.args[1]))
    return repr(t)


def unsigned(run, v, w):
    """the unsigned number a Uint(w) value stands for"""
    if isinstance(v, int):
        return v % M128
    if w < 128:
        return v
    return v if run.decide(ops.binary(">=", v, 0, 128, True)) else add(v, M128)


OPSYM = {"binary_plus": "+", "binary_minus": "-", "multiplication": "*", "division": "/", "remainder": "%",
         "bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^", "shift_left": "<<", "shift_right": ">>",
         "equals": "==", "not_equals": "!=", "less_than": "<", "greater_than": ">", "less_or_equal": "<=",
         "greater_or_equal": ">="}


def fits(run, v, t):
    """is an Int value v representable in the Uint type t (splitting)"""
    w = t[1]
    if not run.decide(ops.binary(">=", v, 0, 128, True)):
        return False
    return w >= 127 or run.decide(ops.binary("<=", v, (1 << w) - 1, 128, True))


def convert(run, v, frm, to):
    """('ok', value) or ('err',) for the implicit conversion"""
    if frm[0] == INT and to[0] == UINT:
        if not fits(run, v, to):
            return "err", "int_to_uint_range_error"
    return "ok", v


def spec_binary(run, op, lt, lv, rt, rv):
    """('err', code) | ('bool', condition) | ('term', type, term)"""
    st, ty = binary_rule(op, lt, rt, lt[1] == rt[1])
    if st == "err":
        return "err", "type_error"
    ct = common_rule(lt, rt, lt[1] == rt[1])[1]
    s, l = convert(run, lv, lt, ct)
    if s == "err":
        return s, l
    s, r = convert(run, rv, rt, ct)
    if s == "err":
        return s, r
    k, w = ct
    o = OPSYM.get(op)
    if k == BOOL:
        f = {"logical_and": lambda a, b: a and b, "logical_or": lambda a, b: a or b, "equals": lambda a, b: a == b,
             "not_equals": lambda a, b: a != b}[op]
        return "bool", bool(f(l, r))
    if k == UINT:
        l, r = unsigned(run, l, w), unsigned(run, r, w)
    if op in EQ | REL:
        return "bool", run.decide(ops.binary(o, l, r, 128, k == INT))
    if op in ("division", "remainder") and run.decide(ops.binary("==", r, 0, 128, k == INT)):
        return "err", "division_by_zero"
    if op in ("shift_left", "shift_right") and run.decide(ops.binary(">=", r, w, 128, False)):
        return "err", "shift_too_much"
    r = run.concrete(r)
    l = run.concrete(l)
    return "term", ct, ops.binary(o, l, r, 128, k == INT)


def spec_unary(run, op, t, v):
    st, ty = unary_rule(op, t)
    if st == "err":
        return "err", "type_error"
    k, w = t
    if k == BOOL:
        return "bool", not v
    u = unsigned(run, v, w) if k == UINT else v
    if op == "unary_plus":
        return "term", t, u
    return "term", t, ops.unary("-" if op == "unary_minus" else "~", u, 128, k == INT)


def widths(ctx):
    return list(range(1, 129))


# a unit of work: (kind, op, lhs type, rhs type); analysed in worker processes
_W = {}


def _worker(job):
    E, mode = _W["E"], _W["mode"]
    out = {"ob": 0, "viol": [], "und": {}, "paths": 0, "units": set(), "samples": []}

    def ok(c, key, msg):
        out["ob"] += 1
        if not c:
            out["viol"].append((key, msg))
    events = []

    def on_arith(run, e, op, a, b, bits, sg):
        if bits < 128:
            return
        if op in ("/", "%"):
            c = run.known(ops.binary("!=", run.concrete(b), 0, 128, sg))
            events.append(("div", op, run.where(e.get("l")), c is True))
        elif op in ("<<", ">>"):
            lo = run.known(ops.binary(">=", run.concrete(b), 0, 128, True))
            hi = run.known(ops.binary("<", run.concrete(b), bits, 128, True))
            events.append(("shift", op, run.where(e.get("l")), lo is True and hi is True))

    kind = job[0]
    st = {}
    name = job_name(job)
    group = job_group(job)
    P = E.P

    def entry(run):
        run.J = None
        del events[:]
        return _run_job(run, E, job)
    for p in explore(P, entry, opts={"split_casts": True, "on_arith": on_arith}, stats=st, max_paths=4000):
        run = p.run
        out["units"] |= run.entered
        if p.kind == "end" and p.why == "infeasible":
            continue
        if run.notes:
            out["und"][group] = str(run.notes[:2])
            continue
        if mode == "C04":
            for k, op, where, good in events:
                ok(good, "%s: unguarded %s at %s" % (group, op, where),
                   "%s reaches '%s' at %s without the operand being established as %s [%s]" % (
                       name, op, where, "non-zero" if k == "div" else "within the width", explain(run)))
            if p.kind == "end" and p.why == "undefined arithmetic":
                ok(False, group + ": undefined arithmetic", "%s performs undefined arithmetic: %s" % (name, run.trace[-1:]))
            if p.kind == "return":
                spec, got = p.value
                if spec[0] == "err" and spec[1] in ("division_by_zero", "shift_too_much"):
                    ok(got == ("err", spec[1]), group + ": " + spec[1] + " not reported",
                       "%s must fail with %s but yields %s [%s]" % (name, spec[1], show(got), explain(run)))
                elif got[0] == "err" and got[1] in ("division_by_zero", "shift_too_much"):
                    ok(False, group + ": spurious " + got[1], "%s fails with %s although the operation is defined [%s]" % (
                        name, got[1], explain(run)))
                else:
                    ok(True, "", "")
            continue
        if mode == "C02":
            if p.kind == "throw":
                ok(False, group + ": internal failure", "%s hits an internal assertion: %s [%s]" % (name, p.exc, explain(run)))
            elif p.kind == "end":
                if p.why != "undefined arithmetic":
                    ok(False, group + ": " + p.why, "%s: %s %s [%s]" % (name, p.why, run.trace[-1:], explain(run)))
            else:
                spec, got = p.value
                te_s, te_g = spec == ("err", "type_error"), got == ("err", "type_error")
                ok(te_s == te_g, group + ": type error disagreement",
                   "%s: evaluation yields %s where the type rules say %s [%s]" % (name, show(got), show(spec), explain(run)))
                if got[0] in ("ok", "unknown"):
                    want_t = spec_type(spec)
                    ok(want_t is None or tuple(got[1]) == want_t, group + ": result type",
                       "%s: result has type %s, type rules say %s [%s]" % (name, got[1], want_t, explain(run)))
            continue
        # C03
        if p.kind != "return":
            continue
        spec, got = p.value
        good, why = same_result(run, spec, got)
        ok(good, group + ": wrong result", "%s yields %s, expected %s (%s) [%s]" % (name, show(got), show(spec), why, explain(run)))
        if good and len(out["samples"]) < 1 and spec[0] == "term":
            out["samples"].append("%s = %s" % (name, got[2]))
    out["paths"] = st.get("paths", 0)
    out["viol"] = out["viol"][:6]
    return out


def spec_type(spec):
    if spec[0] == "bool":
        return (BOOL, 0)
    if spec[0] in ("term", "unknown"):
        return tuple(spec[1])
    return None


def show(x):
    return str(x)[:300]


def job_name(job):
    kind, op, lt, rt = job[:4]
    f = lambda t: "%s(%s)" % t if t and t[0] == UINT else (t[0] if t else "")
    k = job[4] if len(job) > 4 else None
    kn = "" if k is None else " with operands known=%s" % (k,)
    if kind == "un":
        return "%s %s%s" % (op, f(lt), kn)
    if kind == "if":
        return "%s if Bool else %s%s" % (f(lt), f(rt), kn)
    if kind == "conv":
        return "conversion of %s to %s%s" % (f(lt), f(rt), kn)
    return "%s %s %s%s" % (f(lt), op, f(rt), kn)


def job_group(job):
    kind, op, lt, rt = job[:4]
    k = job[4] if len(job) > 4 else None
    return "%s%s %s %s %s" % ("" if k is None else "partially known ", kind, lt[0], op, rt[0] if rt else "")


def _run_job(run, E, job):
    kind, op, lt, rt = job[:4]
    known = job[4] if len(job) > 4 else None
    if known is None:
        mk = lambda t, n, kn=True: E.mk_cval(run, t, n)
        f_un, f_bin, f_if, f_conv = E.ev_un, E.ev_bin, E.ev_if, E.ev_conv
        kl = kr = kc = True
    else:
        mk = lambda t, n, kn=True: E.mk_val(run, t, n, kn)
        f_un, f_bin, f_if, f_conv = E.vv_un, E.vv_bin, E.vv_if, E.vv_conv
        kl, kr = known[0], known[1]
        kc = known[2] if len(known) > 2 else True
    if kind == "un":
        o, v = mk(lt, "x", kl)
        spec = spec_unary(run, op, lt, v) if kl else unk(unary_rule(op, lt))
        r = invoke(run, f_un, [E.et[op], o])
    elif kind == "bin":
        a, x = mk(lt, "x", kl)
        b, y = mk(rt, "y", kr)
        spec = spec_binary(run, op, lt, x, rt, y) if kl and kr else spec_partial(run, op, lt, x, rt, y)
        r = invoke(run, f_bin, [a, E.et[op], b])
    elif kind == "if":
        a, x = mk(lt, "x", kl)
        b, y = mk(rt, "y", kr)
        c, z = mk((BOOL, 0), "c", kc)
        st, ty = if_rule(lt, (BOOL, 0), rt, lt[1] == rt[1])
        if st == "err":
            spec = ("err", "type_error")
        elif not kc:
            spec = ("unknown", ty)
        else:
            v, t, k = (x, lt, kl) if z else (y, rt, kr)
            if not k:
                spec = ("unknown", ty)
            else:
                s, v = convert(run, v, t, ty)
                spec = ("err", v) if s == "err" else ("term", ty, unsigned(run, v, ty[1]) if ty[0] == UINT else v)
        r = invoke(run, f_if, [a, c, b])
    else:
        a, x = mk(lt, "x", kl)
        good = lt == rt or (lt[0] == INT and rt[0] == UINT)
        if not good:
            spec = ("err", "type_error")
        elif not kl:
            spec = ("unknown", rt)
        else:
            s, v = convert(run, x, lt, rt)
            spec = ("err", v) if s == "err" else ("term", rt, unsigned(run, v, rt[1]) if rt[0] == UINT else v)
        r = invoke(run, f_conv, [a, E.mk_type(run, rt)])
    st, v = result_state(run, r)
    if st == "err":
        return spec, ("err", E.code(E.ec, run, v))
    if known is None:
        t = E.rd_type(run, run.field(v, "type").v)
        return spec, ("ok", t, run.field(v, "int_value").v)
    t = E.rd_type(run, method(run, v, "get_type"))
    if not run.decide(method(run, v, "is_known")):
        return spec, ("unknown", t)
    c = method(run, v, "concrete_value")
    return spec, ("ok", t, run.field(c, "int_value").v)


def unk(rule):
    return ("unknown", rule[1]) if rule[0] == "ok" else ("err", "type_error")


def spec_partial(run, op, lt, x, rt, y):
    """at least one operand unknown: only failures that happen whatever the unknown operand is may be reported"""
    st, ty = binary_rule(op, lt, rt, lt[1] == rt[1])
    if st == "err":
        return "err", "type_error"
    ct = common_rule(lt, rt, lt[1] == rt[1])[1]
    for v, t in ((x, lt), (y, rt)):
        if v is not None:
            s, c = convert(run, v, t, ct)
            if s == "err":
                return s, c
    if y is not None and ct[0] in (INT, UINT):
        r = unsigned(run, y, ct[1]) if ct[0] == UINT else y
        if op in ("division", "remainder") and run.decide(ops.binary("==", r, 0, 128, ct[0] == INT)):
            return "err", "division_by_zero"
        if op in ("shift_left", "shift_right") and run.decide(ops.binary(">=", r, ct[1], 128, False)):
            return "err", "shift_too_much"
    return "unknown", ty


def same_result(run, spec, got):
    if spec[0] == "err":
        return got == spec, "error expected"
    if spec[0] == "unknown":
        return got[0] == "unknown" and tuple(got[1]) == tuple(spec[1]), "unknown value expected"
    if got[0] != "ok":
        return False, "value expected"
    t, v = tuple(got[1]), got[2]
    if isinstance(v, App) and v.op == "b":
        v = v.args[0]
    if spec[0] == "bool":
        if t != (BOOL, 0):
            return False, "Bool expected"
        if isinstance(v, int):
            return v == int(spec[1]), "truth value"
        k = run.known(v if isinstance(v, Cond) else ops.binary("!=", v, 0, 128, True))
        return k is not None and k == spec[1], "truth value"
    ty, term = spec[1], spec[2]
    if t != tuple(ty):
        return False, "type"
    if isinstance(v, (Havoc, Cond)):
        return False, "not a number"
    k, w = ty
    if k == INT:
        return canon(run, v, 128) == canon(run, term, 128), "value"
    if k in (BOOL, VOID):
        return run.concrete(v) == run.concrete(term), "value"
    if canon(run, v, w) != canon(run, term, w):
        return False, "value modulo 2^%d: %s vs %s" % (w, canon(run, v, w), canon(run, term, w))
    if w < 128:
        lo, hi = (v, v) if isinstance(v, int) else run.facts.bounds(run.facts.norm(v)) if is_sym(run.facts.norm(v)) else (run.concrete(v),) * 2
        if lo < 0 or hi >= 1 << w:
            return False, "not reduced to the width"
    return True, ""


def jobs(ctx, E):
    ws = widths(ctx)
    out = []
    base = [(VOID, 0), (BOOL, 0), (INT, 0)]
    for op in sorted(E.et):
        for t in base:
            out.append(("un", op, t, None))
            for t2 in base:
                out.append(("bin", op, t, t2))
        out.append(("un", op, (UINT, 8), None))
        for t in base:
            out.append(("bin", op, t, (UINT, 8)))
            out.append(("bin", op, (UINT, 8), t))
        out.append(("bin", op, (UINT, 8), (UINT, 9)))
    for w in ws:
        u = (UINT, w)
        for op in sorted(UNARY - {"logical_not"}):
            out.append(("un", op, u, None))
        for op in sorted(BINARY - LOGICAL):
            out.append(("bin", op, u, u))
            out.append(("bin", op, u, (INT, 0)))
            out.append(("bin", op, (INT, 0), u))
        for t in base + [u]:
            out.append(("conv", "to", t, u))
            out.append(("conv", "to", u, t))
        out.append(("if", "if", u, u))
        out.append(("if", "if", (INT, 0), u))
        out.append(("if", "if", u, (INT, 0)))
    for t in base:
        for t2 in base:
            out.append(("conv", "to", t, t2))
            out.append(("if", "if", t, t2))
    out.append(("conv", "to", (UINT, 8), (UINT, 9)))
    out.append(("if", "if", (UINT, 8), (UINT, 9)))
    part = []
    pws = ws if ctx.thorough else [1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128]
    for j in out:
        kind, op, lt, rt = j
        if (lt[0] == UINT and lt[1] not in pws + [9]) or (rt and rt[0] == UINT and rt[1] not in pws + [9]):
            continue
        if kind in ("un", "conv"):
            part.append(j + ((True, True),))
            part.append(j + ((False, False),))
        elif kind == "bin":
            for k in ((True, True), (True, False), (False, True), (False, False)):
                part.append(j + (k,))
        else:
            for k in ((True, True, True), (True, False, True), (False, True, True), (True, True, False)):
                part.append(j + (k,))
    return list(dict.fromkeys(out)) + list(dict.fromkeys(part))


def run_jobs(ctx, mode):
    E = Env(ctx.p)
    js = jobs(ctx, E)
    _W["E"], _W["mode"] = E, mode
    mp = multiprocessing.get_context("fork")
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for job, o in zip(js, pool.imap(_worker, js, chunksize=32)):
            ctx.obligations += o["ob"]
            for k, m in o["viol"]:
                ctx.violate(k, m)
            for k, m in o["und"].items():
                ctx.undecide(k, m)
            ctx.stats["paths"] = ctx.stats.get("paths", 0) + o["paths"]
            ctx.units |= o["units"]
            if o["samples"] and len(ctx.samples) < 8:
                ctx.samples += o["samples"]
            ctx.count("partially known operand cases" if len(job) > 4 else "known operand cases")
    ctx.need("known operand cases", 6000)
    ctx.need("partially known operand cases", 2000)
    builtin_eval(ctx, E, mode)


def builtin_eval(ctx, E, mode):
    P = ctx.p
    for f in P.fn("bms::evaluate_builtin_function", n=None):
        et = tname_elem(P, f["p"][1]["t"])
        isv = et.endswith("::Value")
        for known in ((True, False) if isv else (True,)):
            key = "evaluate assert (%s%s)" % (short(et), "" if known else ", unknown")

            def entry(run):
                vec = VecObj(None, f["p"][1]["t"], 1)
                if isv:
                    o, v = E.mk_val(run, (BOOL, 0), "c", known)
                else:
                    o, v = E.mk_cval(run, (BOOL, 0), "c")
                vec.elems[0] = Cell(o)
                r = invoke(run, f, [E.bf["assert"], SpanObj(P.types[f["p"][1]["t"]].get("n"), vec, 0, 1)])
                st, x = result_state(run, r)
                if st == "err":
                    return v, ("err", E.code(E.ec, run, x))
                t = E.rd_type(run, method(run, x, "get_type") if isv else run.field(x, "type").v)
                return v, ("ok", t)
            for p in explore(P, entry, stats=ctx.stats):
                ctx.saw(p.run)
                if p.kind == "end" and p.why == "infeasible":
                    continue
                if p.run.notes:
                    ctx.undecide(key, str(p.run.notes[:2]))
                    continue
                if p.kind != "return":
                    if mode == "C02":
                        ctx.ok(False, key + ": internal failure", "%s: %s" % (key, p.exc or p.why))
                    continue
                v, got = p.value
                if mode in ("C02", "C03"):
                    want = ("err", "assertion_fail") if known and not v else ("ok", (VOID, 0))
                    ctx.ok(got == want, key, "%s with condition %s yields %s instead of %s" % (key, v, got, want))


def check_total(ctx):
    ctx.rule("for every operator and operand-type combination, evaluation of unconstrained known, unknown and partially known "
             "operands never reaches an internal assertion, fails with a type error exactly where the type rules reject, and "
             "otherwise yields a value of the type the rules give")
    run_jobs(ctx, "C02")


def check_semantics(ctx):
    ctx.rule("the value of a successful evaluation, as a term over the operands, equals the documented operation modulo 2^width "
             "(normal form), reduced into the width; comparisons and logic agree on every path; unknown operands give an unknown result")
    run_jobs(ctx, "C03")


def check_undefined(ctx):
    ctx.rule("every division or remainder of values is reached only with a divisor established non-zero and every shift only with an "
             "amount established to be within range; a zero divisor or an amount not below the width is reported as that error and "
             "nothing else is")
    run_jobs(ctx, "C04")
