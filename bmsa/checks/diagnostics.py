"""C16: diagnostics. The functions which print errors are interpreted with streams that record every character: on every error code, on every
position in sources with symbolic characters, and on every error which the analyses of C07 to C09 construct."""
import os
import re
from ..lib import *  # noqa
from ..lib import is_sym, Cell, CharSeq, Obj, OptObj, Ext, Ptr, Cond, sub, result_state, StrObj, SpanObj, VecObj, Sym, explain, explore, fn_by, invoke, method, construct, AnalysisBroken
from .. import streams
from ..interp import PathEnd
from .analysis import TOKEN
from .parsing import SPELL
from ..runner import Ctx
from ..streams import Stream, plain, show

NS = "bit_manipulation::"
BMS = NS + "bms::"


class Observed(Ctx):
    """the verdicts of other properties are not repeated, only what is said about diagnostics"""
    current = None

    def __init__(self, pid, prog, tier):
        Ctx.__init__(self, pid, prog, tier)
        Observed.current = self

    def ok(self, cond, key, msg="", sample=None):
        return cond

    def violate(self, key, msg):
        if key.startswith("C16:"):
            Ctx.violate(self, key, msg)

    def say(self, cond, key, msg):
        return Ctx.ok(self, cond, "C16:" + key, msg)


BAD = ("uninit", "oob", "null-deref", "no-return", "noreturn", "undefined-arith", "empty-optional", "maybe-empty-optional", "bad-optional-access",
       "bad-variant-access", "unchecked-variant", "unchecked-result", "unchecked-error", "error-of-success", "result-deref-error", "end-deref")


def judge_lines(say, key, out, where=None):
    """every line says something; the first is an error at the place"""
    l, _ = plain(out)
    lines, cur = [], []
    for c in l:
        if c == 10:
            lines.append(cur)
            cur = []
        else:
            cur.append(c)
    if not say(not cur and lines, key + ":end", "%s: the output does not end with a line: %r" % (key, show(l)[-60:])):
        return None
    for i, x in enumerate(lines):
        t = show(x)
        kind = "error: " if i == 0 else "note: "
        if "internal error" in t or "https://" in t:
            continue
        if not say(kind in t, key + ":kind", "%s: line %d is no %s: %r" % (key, i, kind, t)):
            continue
        m = t.split(kind, 1)[1]
        words = m.replace("<str>", "x").replace("<num>", "1").strip()
        say(len(words) > 3 and not words.endswith((" be", " to", " with", "'")) or words.endswith("')") or words.endswith("'"), key + ":text",
            "%s: the message says nothing: %r" % (key, t))
    return lines


def place(run, err):
    """line of the error, and line (None: nowhere) and name of what caused it (None: nothing known);
    names and positions, which the cases of the analyses leave open, are given a text"""
    line = cause = None
    for f in run.all_fields(err.rec):
        c = run.field(err, f["n"])
        v = c.v
        opt = isinstance(v, OptObj)
        if opt:
            if not run.decide(v.has):
                continue
            v = run.opt_get(v).v
        if not (isinstance(v, Obj) and v.rec == BMS + "Debug_Info"):
            continue
        v = run.copy_val(v)
        if opt:
            c.v = o = run.copy_val(c.v)
            o.val = Cell(v)
        else:
            c.v = v
        nm = run.field(v, "name")
        if isinstance(nm.v, StrObj) and nm.v.items() is None:
            nm.v = StrObj(None, "" if run.decide(Cond("eq", nm.v.length)) else "name")
        po = run.field(v, "pos").v
        if run.decide(po.has):
            p = run.copy_val(run.opt_get(po).v)
            o = run.copy_val(po)
            o.val = Cell(p)
            run.field(v, "pos").v = o
            for x in ("column", "begin"):
                if not isinstance(run.field(p, x).v, int):
                    run.field(p, x).v = 0
            run.field(p, "file_name").v = StrObj(None, "FILE")
            l = run.concrete(run.field(p, "line").v)
        else:
            l = None
        if opt:
            cause = l, nm.v.concrete() if isinstance(nm.v, StrObj) else None
        elif l is not None:
            line = l
    return line, cause


class Numbers:
    """numbers in messages are shown as texts which tell them apart"""

    def __init__(self):
        self.seen = []

    def text(self, n):
        for i, (x, k) in enumerate(self.seen):
            if k == repr(n):
                break
        else:
            i = len(self.seen)
            self.seen.append((n, repr(n)))
        return "#%d#" % i

    def shows(self, run, t, v):
        """is t the text of the Concrete_Value v?"""
        k = type_kind(run, v)
        n = run.concrete(run.field(v, "int_value").v)
        if k == "Void":
            return t == "Void"
        if k == "Bool":
            return t == ("true" if run.decide(run.truth(n)) else "false")
        m = re.fullmatch(r"#(\d+)#", t)
        if not m:
            return False
        x = self.seen[int(m.group(1))][0]
        return repr(n) in repr(x) if is_sym(n) else x == n


def type_kind(run, v):
    names = {c: n for n, c in run.p.enum("bms::Type_Type").items()}
    return names[run.split_value(method(run, run.copy_val(run.field(v, "type").v), "type"))]


def observe(P):
    """prints every analysis error where it is built"""
    b = fn_by(P, BMS + "Analysis_Error_Builder::build", [])
    pr = fn_by(P, NS + "print_analysis_error", [None, "Parsed_Program", "Analysis_Error", None])
    codes = {v: n for n, v in P.enum("bms::Analysis_Error_Code").items()}
    evals = {v: n for n, v in P.enum("bms::Evaluation_Error_Code").items()}
    constructs = {v: n for n, v in P.enum("bms::Construct").items()}
    exprs = {v: n for n, v in P.enum("bms::Expression_Type").items()}

    def on_build(run, e, obj, args):
        ctx = Observed.current
        r = run.call_fn(b, obj, args)
        if run.opts.get("printing"):
            return r
        run.opts["printing"] = True
        code = codes.get(run.split_value(method(run, run.copy_val(r), "code")), "?")
        if code == "evaluation_error":
            code += "/" + evals.get(run.split_value(method(run, run.copy_val(r), "evaluation_error")), "?")
        c = run.concrete(run.field(method(run, run.copy_val(r), "fail"), "construct").v)
        key = "%s@%s" % (code, constructs.get(c, "?"))
        line = e.get("l")
        at = run.where(line)
        s = Stream("out")
        err = run.copy_val(r)
        line, cause = place(run, err)
        n = len(run.trace)
        prog = Ext(BMS + "Parsed_Program", "parsed")
        shown = run.opts["shown"] = []
        nums = run.opts["numbers"] = Numbers()
        try:
            invoke(run, pr, [Cell(s), Cell(prog), Cell(err), 1])
        except ThrowEx as ex:
            ctx.say(False, key + ":fails", "printing the error %s built at %s fails: %s" % (key, at, ex))
            s = None
        except PathEnd as ex:
            if ex.args[0] != "infeasible":
                ctx.say(False, key + ":fails", "printing the error %s built at %s ends with: %s" % (key, at, ex))
            raise
        bad = [t for t in run.trace[n:] if t[0] in BAD]
        ctx.say(not bad, key + ":absent", "printing the error %s built at %s reads what is not there: %s" % (key, at, bad[:2]))
        if s is not None:
            lines = judge_lines(ctx.say, key, s.out)
            if lines:
                t = show(lines[0])
                m = re.match(r"FILE:(\d+):", t)
                if line is None:
                    ctx.say(not m, key + ":place", "%s, which is nowhere in the source, is printed as %r" % (key, t))
                elif isinstance(line, int):
                    ctx.say(m and int(m.group(1)) == line + 1, key + ":place", "%s in line %d is printed as %r" % (key, line + 1, t))
                    ctx.say(shown and shown[0] == line, key + ":source", "%s in line %d: the source is shown for %r" % (key, line + 1, shown))
                # the line shown below a note is the one of the note
                at_all = [re.match(r"FILE:([^:]*):", show(x)) for x in lines]
                at_all = [int(x.group(1)) - 1 if x.group(1).isdigit() else None for x in at_all if x]
                rest = iter(at_all)
                ctx.say(all(any(x == y or (y is None and not isinstance(x, int)) for y in rest) for x in shown), key + ":note source", "%s: the lines %r are reported, but the source is shown for %r" % (key, at_all, shown))
                # the cause is reported where it is, or by its name
                texts = [show(x) for x in lines[1:]]
                if len(lines) > 1 and cause is not None and isinstance(cause[0], int):
                    ctx.say(cause[0] in at_all[1:], key + ":cause", "%s is caused in line %d, but the notes are %r" % (key, cause[0] + 1, texts))
                elif len(lines) > 1 and cause is not None and cause[0] is None and cause[1]:
                    ctx.say(any(cause[1] in x for x in texts), key + ":cause", "%s is caused by '%s', but the notes are %r" % (key, cause[1], texts))
                c = method(run, run.copy_val(r), "comparison_failure")
                if run.decide(c.has):
                    c = run.opt_get(c).v
                    op = SPELL[TOKEN[exprs[run.split_value(run.field(c, "op").v)]]]
                    good = False
                    for x in texts:
                        w = x.rsplit(" ", 3)
                        good |= len(w) == 4 and w[2] == op and nums.shows(run, w[1], run.field(c, "left").v) and nums.shows(run, w[3], run.field(c, "right").v)
                    ctx.say(good, key + ":comparison", "%s: the comparison %r %s %r, which failed, is shown as %r" % (
                        key, run.field(run.field(c, "left").v, "int_value").v, op, run.field(run.field(c, "right").v, "int_value").v, texts))
                    ctx.count("comparisons printed")
        ctx.count("analysis errors printed")
        ctx.count("error:" + code)
        run.opts["printing"] = False
        return r

    def on_affected(run, e, obj, args):
        run.opts["shown"].append(run.concrete(run.field(args[2].v, "line").v))
        return args[0]

    def on_number(run, e, obj, args):
        return StrObj(None, run.opts["numbers"].text(run.concrete(args[0].v if isinstance(args[0], Cell) else args[0]))) if run.opts.get("printing") else NotImplemented

    def on_source(run, e, obj, args):
        return StrObj(None, "source text")
    return {b["q"]: on_build, NS + "print_affected_line": on_affected, NS + "to_string": on_number, BMS + "Parsed_Program::get_source": on_source}


def analysis_errors(ctx):
    from . import analysis, lookup, annotations
    P = ctx.p
    P.observers = observe(P)
    try:
        for m in (analysis, lookup, annotations):
            sub = Observed(ctx.pid, P, "quick")
            m.check(sub)
            ctx.obligations += sub.obligations
            for k, v in sub.counts.items():
                if k.startswith(("analysis errors", "error:", "comparisons")):
                    ctx.count(k, v)
            for k, v in sub.violations:
                ctx.violate(k[4:], v)
            ctx.units |= sub.units
            for k, v in sub.stats.items():
                if isinstance(v, int):
                    ctx.stats[k] = ctx.stats.get(k, 0) + v
    finally:
        P.observers = {}


# ------------------------------------------------------------------------------------------------ places
def split_lines(items):
    out, cur = [], []
    for c in items:
        if c == 10:
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    return out, cur


def source_line(run, chars, begin):
    """the line which contains the index, and the column"""
    b = begin
    while b > 0 and not run.member(chars[b - 1], [10]):
        b -= 1
    e = begin
    while e < len(chars) and not run.member(chars[e], [10]):
        e += 1
    return chars[b:e]


def same_chars(run, a, b):
    return len(a) == len(b) and all(repr(run.concrete(x)) == repr(run.concrete(y)) for x, y in zip(a, b))


def affected(ctx, run, key, lines, chars, pos, why):
    """two lines: the source line after its number, and a caret below the column"""
    line, column, begin = pos
    if not ctx.ok(len(lines) == 2, key + ":shown", "%s: %d lines show the place instead of two [%s]" % (key, len(lines), why)):
        return
    text = source_line(run, chars, begin)
    a, b = lines
    n = len(a) - len(text)
    if not ctx.ok(n >= 0 and same_chars(run, a[n:], text), key + ":line", "%s: the line shown is %r instead of %r [%s]" % (key, show(a), show(text), why)):
        return
    head = show(a[:n])
    digits = "".join(c for c in head if c.isdigit())
    ctx.ok(digits == str(line + 1), key + ":number", "%s: the line shown has the number %r, but it is line %d [%s]" % (key, digits, line + 1, why))
    t = show(b)
    ctx.ok(t.find("^") == n + column and t.count("^") == 1 and not t[:n].strip(" |") and not t[n:].strip(" ^"), key + ":caret",
           "%s: the caret is at column %d of the line instead of %d [%s]" % (key, t.find("^") - n, column, why))


def headline(ctx, key, t, pos, kind, why):
    """'FILE:line:column: error: message'; the message"""
    head = "FILE:%d:%d: %s: " % (pos[0] + 1, pos[1] + 1, kind)
    if not ctx.ok(t.startswith(head) and len(t) > len(head) + 3, key + ":head", "%s: the line %r should begin with %r and say something [%s]" % (key, t, head, why)):
        return ""
    return t[len(head):]


def colors_ok(ctx, key, esc, colors):
    ctx.ok(colors or not esc, key + ":colors", "%s: escape codes are printed although there should be no colors" % key)


def local_pos(P, run, pos, span=False):
    o = Obj(P.record(NS + ("Local_Source_Span" if span else "Local_Source_Position")))
    for n, v in zip(("line", "column", "begin"), pos):
        run.field(o, n).v = v
    if span:
        run.field(o, "length").v = pos[3]
    return o


def paths(ctx, key, entry, opts=None, limit=4000):
    P = ctx.p
    for p in explore(P, entry, {}, dict({"unroll": 400, "rec_limit": 60, "max_depth": 900}, **(opts or {})), limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        if p.kind != "return":
            ctx.ok(False, key + ":fails", "%s: printing ends with %s [%s]" % (key, p.exc or p.why, explain(p.run, 6)))
        bad = [t for t in p.run.trace if t[0] in BAD]
        ctx.ok(not bad, key + ":absent", "%s: %s [%s]" % (key, bad[:2], explain(p.run, 6)))


def chars_of(n, known=""):
    return [Sym("c%d" % i, 8, True, enum=tuple(range(-128, 128))) for i in range(n)]


def places(ctx):
    """print_affected_line at every index of every short source"""
    P = ctx.p
    f = fn_by(P, NS + "print_affected_line", [None, None, None, None])
    g = fn_by(P, NS + "find_line", [None, None])
    for n in range(0, 5 if not ctx.thorough else 7):
        for begin in range(0, n + 1):
            for colors, first in ((0, 0), (1, 98)):
                key = "place %d of %d" % (begin, n)

                def entry(run):
                    chars = chars_of(n)
                    nl = [run.member(c, [10]) for c in chars]
                    line = sum(nl[:begin])
                    column = begin - max([i + 1 for i in range(begin) if nl[i]] + [0])
                    src = StrObj(None, CharSeq(chars))
                    pos = (line + first, column, begin)
                    r = invoke(run, g, [src, begin])
                    ctx.ok(isinstance(r, StrObj) and r.items() is not None and same_chars(run, r.items(), source_line(run, chars, begin)), key + ":find_line",
                           "%s: the line found is %r [%s]" % (key, r, explain(run, 6)))
                    s = Stream("out")
                    invoke(run, f, [Cell(s), StrObj(None, CharSeq(chars)), local_pos(P, run, pos), colors])
                    items, esc = plain(s.out)
                    colors_ok(ctx, key, esc, colors)
                    lines, rest = split_lines(items)
                    ctx.ok(not rest, key + ":end", "%s: the last line does not end" % key)
                    affected(ctx, run, key, lines, chars, pos, explain(run, 6))
                paths(ctx, key, entry)
                ctx.count("places")


# ------------------------------------------------------------------------------------------------ codes
def source_cells():
    return [ord(c) for c in "ab"] + [Sym("c2", 8, True, enum=tuple(range(-128, 128)))] + [10] + [ord(c) for c in "xyz"]


def simple_errors(ctx):
    """tokenization, document parsing and conversion: every code at every place"""
    P = ctx.p
    for title, fn, rec, en, extra in (
            ("tokenize", fn_by(P, NS + "print_tokenize_error", [None, None, None, "Tokenize_Error", None]), BMS + "Tokenize_Error", "bms::Tokenize_Error_Code", None),
            ("document parse", fn_by(P, NS + "print_parse_error", [None, None, None, "bmd::Parse_Error", None]), NS + "bmd::Parse_Error", "bmd::Parse_Error_Code",
             "bmd::Grammar_Rule"),
            ("document", fn_by(P, NS + "print_document_error", [None, None, None, "Document_Error", None]), NS + "bmd::Document_Error", "bmd::Document_Error_Code", None)):
        seen = {}
        rules = sorted(P.enum(extra).values()) if extra else [None]
        for cname, code in P.enum(en).items():
            for rule in rules if cname == "unexpected_character" else rules[:1]:
                for pos in ((0, 1, 1), (0, 2, 2), (1, 0, 4)):
                    for colors in (0, 1):
                        key = "%s:%s" % (title, cname)

                        def entry(run):
                            chars = source_cells()
                            run.facts.assume(Cond("eq", sub(chars[2], 10)), False)
                            o = Obj(P.record(rec))
                            run.field(o, "code").v = code
                            if rule is not None:
                                run.field(o, "rule").v = rule
                            run.field(o, "pos").v = local_pos(P, run, pos)
                            s = Stream("out")
                            invoke(run, fn, [Cell(s), StrObj(None, "FILE"), StrObj(None, CharSeq(chars)), o, colors])
                            items, esc = plain(s.out)
                            colors_ok(ctx, key, esc, colors)
                            lines, rest = split_lines(items)
                            if not ctx.ok(not rest and lines, key + ":end", "%s: the last line does not end" % key):
                                return
                            m = headline(ctx, key, show(lines[0]), pos, "error", "")
                            if rule is None or cname != "unexpected_character":
                                seen.setdefault(m, cname)
                                ctx.ok(seen[m] == cname, key + ":same", "%s: the message %r is also that of %s" % (key, m, seen[m]))
                            else:
                                ctx.ok(show([run.concrete(chars[pos[2]])]) in m, key + ":character", "%s: the message %r does not show the character" % (key, m))
                            affected(ctx, run, key, lines[1:3], chars, pos, explain(run, 4))
                            ctx.ok(len(lines) == 3 or "internal" in show(lines[3]), key + ":more", "%s: more than one place is shown" % key)
                        paths(ctx, key, entry)
                        ctx.count("codes printed")


def parse_errors(ctx):
    """unexpected tokens: what was found, what was parsed and what was expected is named"""
    from .tokens import FIXED, KEYWORDS
    P = ctx.p
    fn = fn_by(P, NS + "print_parse_error", [None, None, None, "bms::Parse_Error", None])
    tt = P.enum("bms::Token_Type")
    rules = P.enum("bms::Grammar_Rule")
    spelling = {v: k for k, v in list(FIXED.items()) + list(KEYWORDS.items())}
    et = [f["t"] for f in P.records[P.record(BMS + "Parse_Error")]["fields"] if f["n"] == "expected_tokens"]
    words = {}

    def case(key, token, rule, expected, length=1, colors=0):
        def entry(run):
            chars = source_cells()
            run.facts.assume(Cond("eq", sub(chars[2], 10)), False)
            pos = (1, 1, 5)
            o = Obj(P.record(BMS + "Parse_Error"))
            run.field(o, "fail_rule").v = rules[rule]
            v = VecObj(None, P.tid(BMS + "Token_Type"), len(expected), None, "array")
            v.elems = {i: Cell(tt[x]) for i, x in enumerate(expected)}
            run.field(o, "expected_tokens").v = SpanObj(None, v, 0, len(expected))
            t = Obj(P.record(BMS + "Token"))
            run.field(t, "type").v = tt[token]
            run.field(t, "pos").v = local_pos(P, run, pos + (length,), True)
            run.field(o, "fail_token").v = t
            s = Stream("out")
            invoke(run, fn, [Cell(s), StrObj(None, "FILE"), StrObj(None, CharSeq(chars)), o, colors])
            items, esc = plain(s.out)
            colors_ok(ctx, key, esc, colors)
            lines, rest = split_lines(items)
            if not ctx.ok(not rest and len(lines) == 4, key + ":lines", "%s: %d lines instead of 4" % (key, len(lines))):
                return
            m = headline(ctx, key, show(lines[0]), pos, "error", "")
            n = headline(ctx, key, show(lines[1]), pos, "note", "")
            affected(ctx, run, key, lines[2:], chars, pos, "")
            ctx.ok(rule in m, key + ":rule", "%s: the message %r does not name the rule" % (key, m))
            found = m.split(" while ")[0]
            if length:
                ctx.ok(spelled(token, found), key + ":token", "%s: the message %r does not name the token %s" % (key, m, token))
            else:
                ctx.ok("end of" in found and "token" not in found, key + ":end of file", "%s: the message %r does not tell the end of the file" % (key, m))
            rest = n
            for i, x in enumerate(expected):
                w = "'%s'" % spelling[x] if x in spelling else words.get(x, x)
                ctx.ok(w in rest, key + ":expected", "%s: the message %r does not name %s, or not in its place" % (key, n, w))
                rest = rest.split(w, 1)[-1]
            ctx.ok(not set(rest) - set(" ,.or") and (expected or rest == ""), key + ":expected", "%s: the message %r names more than is expected" % (key, n)) if expected else None
        paths(ctx, key, entry)
        ctx.count("parse errors printed")

    def spelled(token, text):
        if token in spelling:
            return text.endswith("'%s'" % spelling[token])
        w = text.rsplit("token ", 1)[-1]
        words.setdefault(token, w)
        return bool(w) and words[token] == w and "'" not in w.replace("/*", "").replace("'//'", "").replace("''", "")
    for t in tt:
        case("token " + t, t, "program", [])
    ctx.ok(len(set(words.values())) == len(words), "tokens:same", "two kinds of tokens have the same name: %s" % words)
    for t in tt:
        case("expected " + t, "comma", "program", [t])
        case("expected " + t, "comma", "program", ["plus", t, "left_parenthesis"], colors=1)
    case("expected two", "comma", "program", ["plus", "minus"])
    for r in rules:
        case("rule " + r, "comma", r, ["plus"])
    case("end of file", list(tt)[0], "program", ["plus"], 0)


PROGRAMS = ("function f ( n : Uint ( 3 ) , b : Bool ) -> Int requires true { let x : Int = 1 ; x = - 2 ; while x < 3 { break ; } return x ; }",
            "@ a ( k = 1 ) const x = f ( 1 ) as Int ; const y = 1 if true else 2 ; static_assert ( true ) ;")


def whole(ctx):
    """errors of the tokenizer and the parser, printed: beginnings of programs, and characters which belong to no token"""
    P = ctx.p
    tok = [f for k, l in P.by_q.items() if k.endswith("bms::tokenize") for f in l if len(f["p"]) == 2][0]
    par = [f for k, l in P.by_q.items() if k.endswith("bms::parse") for f in l if len(f["p"]) == 2][0]
    pt = fn_by(P, NS + "print_tokenize_error", [None, None, None, "Tokenize_Error", None])
    pp = fn_by(P, NS + "print_parse_error", [None, None, None, "bms::Parse_Error", None])
    vt = P.strip(tok["p"][0]["t"])

    def case(key, text, at=None):
        def entry(run):
            chars = [ord(c) for c in text]
            src = StrObj(None, CharSeq(chars))
            out = Cell(VecObj(vt["n"], P.native(vt["n"])[1][0][1], 0))
            s = Stream("out")
            st, val = result_state(run, invoke(run, tok, [out, src]))
            if st == "err":
                invoke(run, pt, [Cell(s), StrObj(None, "FILE"), src, val, 0])
            else:
                prog = Cell(construct(run, "bms::Parsed_Program", [None, None], [src, Ptr(Cell(Obj(None)))]))
                st, val = result_state(run, invoke(run, par, [prog, SpanObj(None, out.v, 0, out.v.length)]))
                if not ctx.ok(st == "err", key + ":accepted", "%s: accepted" % key):
                    return
                invoke(run, pp, [Cell(s), StrObj(None, "FILE"), src, val, 0])
            lines, rest = split_lines(plain(s.out)[0])
            b = at if at is not None else len(text.rstrip())
            pos = (text[:b].count("\n"), b - (text.rfind("\n", 0, b) + 1), b)
            if at is None and b == 0:
                pos = (0, 0, 0)
            headline(ctx, "whole:" + ("end" if at is None else key), show(lines[0]), pos, "error", "source %r" % text)
            affected(ctx, run, "whole:" + ("end" if at is None else key), lines[-2:], chars, pos, "source %r" % text)
        paths(ctx, key, entry)
        ctx.count("sources with errors")
    for t in PROGRAMS:
        w = t.split()
        for i in range(1, len(w)):
            pre = " ".join(w[:i])
            if not pre.endswith((";", "}")) or pre.count("{") != pre.count("}"):
                case("beginning of a program", pre + (" " if i % 2 else "\n"))
    for t, at in (("const x = $;", 10), ("const\nx = 0x;", 12), ("a 12b", 4), ("const x\n = 1 /* x", 13), ('@a("x', 3), ("const x = 1 + ;", 14), ("const y = 3;\n}", 13), ("1", 0)):
        case("source %r" % t, t, at)


# ------------------------------------------------------------------------------------------------ other errors
def other_errors(ctx):
    P = ctx.p
    io = fn_by(P, NS + "print_io_error", [None, None, "IO_Error_Code", None])
    seen = {}
    for cname, code in P.enum("IO_Error_Code").items():
        key = "io:" + cname

        def entry(run):
            s, other = Stream("out"), Stream("cout")
            run.globals["_ZSt4cout"], run.globals["_ZSt4cerr"] = Cell(other), Cell(Stream("cerr"))
            invoke(run, io, [Cell(s), StrObj(None, "FILE"), code, 0])
            items, esc = plain(s.out)
            colors_ok(ctx, key, esc, 0)
            t = show(items)
            ctx.ok(t.startswith("FILE:") and len(t) > 12 and t.endswith("\n") and not other.out, key, "%s: %r is printed to the stream given, %r to another" % (key, t, show(other.out)))
            m = t[5:]
            ctx.ok(seen.setdefault(m, cname) == cname, key + ":same", "%s: the message is also that of %s" % (key, seen[m]))
        paths(ctx, key, entry)
        ctx.count("codes printed")
    fa = fn_by(P, NS + "print_assertion_error", [None, "Assertion_Error", None])
    for tname, ty in P.enum("Assertion_Error_Type").items():
        key = "assertion:" + tname

        def entry(run):
            o = Obj(P.record(NS + "Assertion_Error"))
            run.field(o, "type").v = ty
            run.field(o, "message").v = StrObj(None, "MESSAGE")
            run.field(o, "location").v = Ext("source_location")
            s = Stream("out")
            run.hooks = dict(run.hooks, **{"std::source_location::line": lambda run, e, obj, args: 7, "std::source_location::column": lambda run, e, obj, args: 12,
                                           "std::source_location::file_name": lambda run, e, obj, args: StrObj(None, "FILE")})
            invoke(run, fa, [Cell(s), o, 0])
            items, esc = plain(s.out)
            colors_ok(ctx, key, esc, 0)
            t = show(items)
            ctx.ok("MESSAGE" in t and "FILE:7:12" in t, key, "%s: printed for line 7, column 12: %r" % (key, t))
        paths(ctx, key, entry)
        ctx.count("codes printed")


def check(ctx):
    ctx.rule("the functions which print errors, interpreted with streams that record characters, print place, message and source line of every error")
    places(ctx)
    simple_errors(ctx)
    parse_errors(ctx)
    whole(ctx)
    other_errors(ctx)
    names(ctx)
    decimals(ctx)
    analysis_errors(ctx)
    for n, k in (("places", 30), ("codes printed", 200), ("parse errors printed", 200), ("sources with errors", 60), ("names", 300), ("messages", 80),
                 ("integer types", 2), ("numbers of digits", 100), ("analysis errors printed", 4000)):
        ctx.need(n, k)


# ------------------------------------------------------------------------------------------------ names
NAMES = (("bms::analysis_error_code_name", "bms::Analysis_Error_Code"), ("bms::evaluation_error_code_name", "bms::Evaluation_Error_Code"),
         ("bms::execution_error_code_name", "bms::Execution_Error_Code"), ("bms::builtin_function_name", "bms::Builtin_Function"),
         ("bms::annotation_type_name", "bms::Annotation_Type"), ("bms::grammar_rule_name", "bms::Grammar_Rule"), ("bms::token_type_name", "bms::Token_Type"),
         ("bms::name_of", "bms::Tokenize_Error_Code"), ("bms::type_type_name", "bms::Type_Type"), ("bmd::grammar_rule_name", "bmd::Grammar_Rule"),
         ("bmd::code_language_name", "bmd::Code_Language"))


def names(ctx):
    """the functions which name error codes, rules and kinds in messages and dumps; prose that tells errors apart"""
    from .tokens import FIXED, KEYWORDS
    P = ctx.p

    def values(q, en):
        out = {}
        fs = [f for k, l in P.by_q.items() if k == NS + q for f in l if len(f["p"]) == 1 and P.strip(f["p"][0]["t"]).get("n") == NS + en]
        if not fs:
            return None
        for n, v in P.enum(en).items():
            def entry(run):
                r = invoke(run, fs[0], [v])
                l = r.items() if isinstance(r, StrObj) else None
                out[n] = show(l) if l is not None else None
            paths(ctx, q, entry)
        return out
    for q, en in NAMES:
        for n, t in (values(q, en) or {}).items():
            ctx.ok(t in (n, n.rstrip("_")), "name:%s:%s" % (q, n), "%s(%s::%s) is %r" % (q, en, n, t))
            ctx.count("names")
    spelling = dict((v, k) for k, v in list(FIXED.items()) + list(KEYWORDS.items()))
    for q in ("bms::token_type_readable_name", "bms::token_type_code_name"):
        seen = {}
        for n, t in (values(q, "bms::Token_Type") or {}).items():
            if n in spelling and (q.endswith("code_name") or n in KEYWORDS.values()):
                ctx.ok(t is not None and spelling[n] in t.strip("'\"`"), "name:%s:%s" % (q, n), "%s(%s) is %r although the token is written %s" % (q, n, t, spelling[n]))
            if t:
                ctx.ok(seen.setdefault(t, n) == n, "name:%s:same" % q, "%s is %r for both %s and %s" % (q, t, n, seen[t]))
            ctx.count("names")
    for q, en in (("to_prose", "bms::Tokenize_Error_Code"), ("to_prose", "bms::Analysis_Error_Code"), ("to_prose", "bms::Evaluation_Error_Code"),
                  ("to_prose", "bms::Execution_Error_Code"), ("to_prose", "bmd::Parse_Error_Code"), ("to_prose", "bmd::Document_Error_Code"), ("to_prose", "IO_Error_Code")):
        seen = {}
        fs = [f for k, l in P.by_q.items() if k.rsplit("::", 1)[-1] == q for f in l if len(f["p"]) == 1 and P.strip(f["p"][0]["t"]).get("n") == NS + en]
        if not fs:
            continue
        for n, v in P.enum(en).items():
            def entry(run):
                r = invoke(run, fs[0], [v])
                t = show(r.items()) if isinstance(r, StrObj) and r.items() is not None else None
                if en != "bms::Analysis_Error_Code":
                    ctx.ok(t, "prose:%s:%s" % (en, n), "there is no message for %s::%s" % (en, n))
                if t:
                    ctx.ok(seen.setdefault(t, n) == n, "prose:%s:same" % en, "%s is the message of both %s and %s" % (t, n, seen[t]))
            paths(ctx, "prose:%s:%s" % (en, n), entry)
            ctx.count("messages")


# ------------------------------------------------------------------------------------------------ numbers
def decimals(ctx):
    """to_string of 128-bit integers: the digits printed are those of the number, for every number"""
    from ..terms import App, add, parts, scale
    back = {}

    def whole(x):
        """a % c is a - c * (a / c); conversions and negation modulo 2^128 are exact where the result is known to fit"""
        c, d = parts(x)
        for a, k in d.items():
            t = a
            if isinstance(a, App) and a.op in ("%", "/") and isinstance(a.args[1], int):
                n = whole(a.args[0])
                t = App("/", (n, a.args[1]), a.bits, a.sg)
                back[t] = App("/", a.args, a.bits, a.sg)
                if a.op == "%":
                    t = sub(n, scale(t, a.args[1]))
            elif isinstance(a, App) and a.op == "cast":
                t = whole(a.args[0])
            elif isinstance(a, App) and a.op == "neg":
                t = sub(0, whole(a.args[0]))
            elif isinstance(a, App) and a.op in ("+", "-"):
                t = add(whole(a.args[0]), whole(a.args[1]), 1 if a.op == "+" else -1)
            c = add(c, scale(t, k))
        return c

    def positive(run, v):
        if isinstance(v, int):
            return v > 0
        if isinstance(v, App) and v.op == "/":
            return run.facts.decide(Cond("ge", sub(v.args[0], v.args[1]))) is True
        return run.facts.decide(Cond("ge", sub(v, 1))) is True
    P = ctx.p
    fs = {P.strip(f["p"][0]["t"])["sg"]: f for f in P.by_q.get(NS + "to_string", []) if len(f["p"]) == 1 and P.strip(f["p"][0]["t"])["k"] == "int"}
    ctx.count("integer types", len(fs))
    for sg, f in fs.items():
        def on_std(run, e, obj, args):
            """the digits of a number below 2^64: the number of digits is chosen, they stand for the number"""
            v = args[0].v if isinstance(args[0], Cell) else args[0]
            v = run.concrete(v)
            if isinstance(v, int):
                return StrObj(None, str(v))
            for d in range(1, 21):
                if d == 20 or run.decide(Cond("ge", sub(10 ** d - 1, v))):
                    break
            t = run.opts.setdefault("digits of", {})
            out = []
            for i in range(d):
                s = Sym("digit%d.%d" % (len(t), i), 8, True, enum=tuple(range(48, 58)))
                t[s.name] = (v, i, d)
                out.append(s)
            return StrObj(None, CharSeq(out))

        def on_own(run, e, obj, args):
            """the other conversion, which is judged by itself"""
            v = args[0].v if isinstance(args[0], Cell) else args[0]
            s = Sym("decimal", 8, True, enum=tuple(range(48, 58)))
            run.opts["digits of"][s.name] = (v, 0, 1)
            return StrObj(None, CharSeq([s]))

        def entry(run):
            key = "to_string(%s)" % ("Int128" if sg else "Uint128")
            run.opts["digits of"] = {}
            x = Sym("x", 128, sg)
            r = invoke(run, f, [x])
            l = r.items() if isinstance(r, StrObj) else None
            if not ctx.ok(l, key + ":text", "%s is %r" % (key, r)):
                return
            why = explain(run, 6)
            minus = l[0] == 45
            l = l[1:] if minus else l
            total, i, first = 0, 0, True
            while i < len(l):
                c = l[i]
                if isinstance(c, int):
                    if not ctx.ok(48 <= c < 58, key + ":digit", "%s contains the character %r [%s]" % (key, c, why)):
                        return
                    total = add(scale(total, 10), c - 48)
                    ctx.ok(not first or len(l) == 1 or c != 48, key + ":zero", "%s begins with a zero [%s]" % (key, why))
                    i += 1
                else:
                    v, k, d = run.opts["digits of"].get(getattr(c, "name", None)) or (whole(sub(c, 48)), 0, 1)
                    if not ctx.ok(k == 0 and len(l) - i >= d, key + ":digits", "%s has only a part of the digits of %r [%s]" % (key, v, why)):
                        return
                    total = add(scale(total, 10 ** d), v)
                    if first and len(l) > d:
                        t = parts(v)[1]
                        ctx.ok(positive(run, v) or all(run.facts.decide(Cond("eq", back.get(a, a))) is (k < 0) for a, k in t.items()), key + ":zero", "%s begins with the digits of %r, which may be zero [%s]" % (key, v, why))
                    i += d
                first = False
            want = sub(0, x) if minus else x
            rest = whole(sub(total, want))
            c, d = parts(rest)
            for a, k in d.items():
                lo, hi = run.facts.bounds(back.get(a, a))
                lo, hi = (0, 0) if run.facts.decide(Cond("eq", back.get(a, a))) is True else (lo, hi)
                c = c + k * lo if lo == hi and c is not None else None
            ctx.ok(c == 0, key, "%s is %r [%s]" % (key, total, why))
            if sg:
                ctx.ok(run.facts.decide(Cond("ge", sub(-1, x))) is minus, key + ":sign", "%s has %s sign [%s]" % (key, "a" if minus else "no", why))
        hooks = {"std::to_string": on_std}
        if sg:
            hooks[fs[False]["f"]] = on_own
        for p in explore(P, entry, hooks, {"unroll": 60, "rec_limit": 60}, 4000, ctx.stats):
            ctx.saw(p.run)
            if p.kind == "end" and p.why == "infeasible":
                continue
            ctx.ok(p.kind == "return", "to_string:fails", "to_string ends with %s" % (p.exc or p.why))
            ctx.count("numbers of digits")
