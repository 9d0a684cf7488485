"""C10: integer literals. The text of a literal has symbolic characters; the value (or rejection) on each path is compared with the
mathematical value of the text, including texts around every limit of the representable range in every base."""
from ..lib import *  # noqa
from ..lib import Cell, PathEnd, CharSeq, StrObj, OptObj, Sym, Cond, add, sub, scale, explain, explore, fn_by, invoke, AnalysisBroken
from .operators import canon

LIM = 1 << 127
DIG = "0123456789abcdef"


def value_of_char(run, c, base):
    """digit value of a character (int or term) or None; splits"""
    if run.member(c, [ord(d) for d in DIG[:min(base, 10)]]):
        return sub(c, 48)
    if base == 16:
        if run.member(c, [ord(d) for d in "abcdef"]):
            return sub(c, 87)
        if run.member(c, [ord(d) for d in "ABCDEF"]):
            return sub(c, 55)
    if run.member(c, [ord(d) for d in DIG[:10]]):
        raise PathEnd("unspecified")        # 08 is two tokens; the texts of literals have valid digits
    return None


def is_char(run, c, ch):
    return run.member(c, [ord(ch)])


def reference(run, chars, signed):
    """value of a literal as a mathematical integer, or None"""
    chars = list(chars)
    neg = False
    if signed and chars and is_char(run, chars[0], "-"):
        neg, chars = True, chars[1:]
    if not chars:
        return None
    base = 10
    if is_char(run, chars[0], "0"):
        base = 8
        if len(chars) > 1 and is_char(run, chars[1], "b"):
            base, chars = 2, chars[2:]
        elif len(chars) > 1 and is_char(run, chars[1], "x"):
            base, chars = 16, chars[2:]
    if not chars:
        return None
    v = 0
    for c in chars:
        d = value_of_char(run, c, base)
        if d is None:
            return None
        v = add(scale(v, base), d)
    if neg:
        v = scale(v, -1)
    lo, hi = (-LIM, LIM - 1) if signed else (0, 2 * LIM - 1)
    if not run.decide(Cond("ge", sub(v, lo))) or not run.decide(Cond("ge", sub(hi, v))):
        return None
    return v


def digits(n, base):
    s = ""
    while n:
        s, n = DIG[n % base] + s, n // base
    return s or "0"


PRE = {2: "0b", 8: "0", 10: "", 16: "0x"}


def run_case(ctx, key, text, signed, limit=20000):
    """text: characters; None is any character, a string of several characters one of them"""
    P = ctx.p
    f = fn_by(P, "bit_manipulation::parse_%sinteger_literal" % ("" if signed else "u"), [None])
    n = 0

    def entry(run):
        chars = []
        for i, t in enumerate(text):
            if t is None or len(t) > 1:
                chars.append(Sym("c%d" % i, 8, True, enum=tuple(range(-128, 128)) if t is None else tuple(sorted(ord(x) for x in t))))
            else:
                chars.append(ord(t))
        state["phase"] = "code"
        r = invoke(run, f, [StrObj(None, CharSeq(chars))])
        state["phase"] = "rules"
        if not isinstance(r, OptObj):
            raise AnalysisBroken("result of %s" % f["q"])
        want = reference(run, chars, signed)
        has = run.decide(r.has)
        why = "; ".join("%s=%s" % c for c in run.path_conds[-6:])
        if want is None:
            ctx.ok(not has, key + ":accepted", "%s: accepted, but it is no literal of a representable value [%s]" % (key, why))
            return
        if not ctx.ok(has, key + ":rejected", "%s: rejected, but it is the literal of a representable value [%s]" % (key, why)):
            return
        got = run.concrete(r.val.v)
        same = canon(run, got, 128) == canon(run, want, 128)
        ctx.ok(same, key + ":value", "%s: has the value %r instead of %r [%s]" % (key, got, run.concrete(want), why))
    state = {}
    for p in explore(P, entry, {}, {"unroll": 400, "linear": True}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why in ("infeasible", "unspecified"):
            continue
        n += 1
        if p.kind != "return":
            if state["phase"] != "code":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("texts")
    ctx.count("paths", n)


def cases(thorough):
    out = {}
    for signed in (True, False):
        kind = "signed" if signed else "unsigned"
        for n in range(0, 6 if thorough else 5):
            out["%s, %d unknown characters" % (kind, n)] = ([None] * n, signed)
        for base, pre in PRE.items():
            dg = DIG[:base] + ("ABCDEF" if base == 16 else "")
            nz = dg.replace("0", "") if base == 10 else dg
            for sg in ("", "-"):
                # digits which are unknown, and one unknown character among digits
                for n in (1, 2, 3, 5) + ((8,) if thorough and base < 16 else ()):
                    if n > 3 and base == 16 and not thorough:
                        continue
                    t = list(sg + pre) + [nz] + [dg] * (n - 1)
                    out["%s %s%s + %d digits" % (kind, sg, pre, n)] = (t, signed)
                    for i in (0, n - 1):
                        t2 = list(sg + pre) + ["1"] * n
                        t2[len(sg + pre) + i] = None
                        out["%s %s%s + %d digits, character %d unknown" % (kind, sg, pre, n, i)] = (t2, signed)
                # around the limits
                for name, m in (("2^127-1", LIM - 1), ("2^127", LIM), ("2^128-1", 2 * LIM - 1), ("2^128", 2 * LIM)):
                    for dlt in (-1, 0, 1):
                        q = m // base + dlt
                        t = list(sg + pre + digits(q, base)) + [dg]
                        out["%s %s%s around %s (%+d)" % (kind, sg, pre, name, dlt)] = (t, signed)
                    d = digits(m, base)
                    pos = range(len(d)) if thorough or len(d) < 45 else list(range(0, 4)) + [len(d) // 2] + list(range(len(d) - 4, len(d)))
                    for i in pos:
                        t = list(sg + pre + d)
                        t[len(sg + pre) + i] = nz if i == 0 else dg
                        out["%s %s%s digits of %s, digit %d unknown" % (kind, sg, pre, name, i)] = (t, signed)
                # one digit more or less than the largest value has
                ln = len(digits(2 * LIM - 1, base))
                for k in (-1, 0, 1, 2, 20):
                    for fill in ("0", dg[base - 1], "1"):
                        for i in {0, 1, (ln + k) // 2, ln + k - 1}:
                            t = list(sg + pre + (dg[1] + fill * (ln + k - 1)))
                            t[len(sg + pre) + i] = nz if i == 0 else dg
                            out["%s %s%s %d digits (%s), digit %d unknown" % (kind, sg, pre, ln + k, fill, i)] = (t, signed)
                if base != 10:
                    out["%s %s%s leading zeros" % (kind, sg, pre)] = (list(sg + pre + "0" * 200) + [dg, dg], signed)
    return out


def check(ctx):
    ctx.rule("for every text, an integer literal is accepted exactly when it consists of an optional sign, a prefix and at least one digit of its base, and its mathematical value is representable; "
             "the result is that value")
    import os
    only = os.environ.get("BMSA_ONLY")
    for key, (t, s) in cases(ctx.thorough).items():
        if not only or only in key:
            run_case(ctx, key, t, s)
    if not only:
        ctx.need("texts", 200)
