"""C19: parsing of documents. Sources with symbolic characters are parsed through the public entry point; acceptance, the tree, all source
positions, and the code and place of the error are compared, path by path, with an independent parser of the document grammar. The tables
about directives are compared with the documentation of the directives."""
from ..lib import *  # noqa
from ..lib import Cell, CharSeq, StrObj, MapObj, Obj, OptObj, Ptr, NULL, Sym, add, sub, scale, explain, explore, fn_by, invoke, method, parallel, result_state, AnalysisBroken
from .. import ops

SPACE = " \n\t\r"
ID0 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
DIGITS = "0123456789"

# identifier: (type, what its block contains, where it may occur, tag, passed through to HTML)
DIRECTIVES = {
    "b": ("bold", "span", "paragraph", "b"), "br": ("line_break", "nothing", "paragraph", "br"), "del": ("deleted", "span", "paragraph", "del"),
    "h1": ("heading1", "span", "content", "h1"), "h2": ("heading2", "span", "content", "h2"), "h3": ("heading3", "span", "content", "h3"),
    "h4": ("heading4", "span", "content", "h4"), "h5": ("heading5", "span", "content", "h5"), "h6": ("heading6", "span", "content", "h6"),
    "hr": ("horizontal_rule", "nothing", "content", "hr"), "i": ("italic", "span", "paragraph", "i"), "kbd": ("keyboard", "span", "paragraph", "kbd"),
    "ol": ("ordered_list", "list", "content", "ol"), "q": ("quoted", "span", "paragraph", "q"), "s": ("strikethrough", "span", "paragraph", "s"),
    "sub": ("subscript", "span", "paragraph", "sub"), "sup": ("superscript", "span", "paragraph", "sup"), "tt": ("teletype", "span", "paragraph", "tt"),
    "u": ("underlined", "span", "paragraph", "u"), "ul": ("unordered_list", "list", "content", "ul"),
    "c": ("code", "raw", "paragraph", None), "codeblock": ("code_block", "raw", "content", None), "instruction": ("instruction", "text_span", "paragraph", None),
    "item": ("item", "span", "list", None), "note": ("note", "block", "content", None), "meta": ("meta", "meta", "content", None),
    "title": ("title", "text_span", "meta", None), "bmsfun": ("bms_function", "text_span", "meta", None), "cequiv": ("c_equivalent", "text_span", "meta", None)}
ALLOWS = {"nothing": (), "text_span": (), "span": ("paragraph",), "block": ("paragraph", "content"), "meta": ("meta",), "list": ("list",)}


class Bad(Exception):
    """code, first and last offset at which it may be reported"""


class Reference:
    def __init__(self, run, chars):
        self.run, self.s, self.i = run, chars, 0
        self.end = len(chars)

    # --- characters
    def isc(self, i, values):
        if i >= self.end:
            return False
        return self.run.member(self.s[i], [ord(c) for c in values])

    def text_at(self, i, t):
        return i + len(t) <= self.end and all(self.isc(i + k, c) for k, c in enumerate(t))

    def escape(self, i):
        return self.isc(i, "\\") and self.isc(i + 1, "\\{}")

    def directive_ahead(self):
        return self.isc(self.i, "\\") and not self.isc(self.i + 1, "\\{}")

    def where(self, i):
        """line and column of an offset"""
        line = col = 0
        for k in range(i):
            c = self.s[k]
            if self.run.member(c, [10]):
                line, col = line + 1, 0
            elif self.run.member(c, [13]):
                col = 0
            elif self.run.member(c, [9]):
                col += 4
            else:
                col += 1
        return line, col

    # --- blanks
    def comment(self, i):
        """offset after the comment at i, whether it ends a line"""
        if self.text_at(i, "//"):
            k = i + 2
            while k < self.end:
                k += 1
                if self.isc(k - 1, "\n"):
                    return k, True
            return k, False
        if self.text_at(i, "/*"):
            k = i + 2
            while not self.text_at(k, "*/"):
                if k >= self.end:
                    raise Bad("unterminated_comment", i, self.end)
                k += 1
            return k + 2, False
        return None

    def blank(self):
        """(paragraph break?, offset before the blank)"""
        b = self.i
        lines, brk = 0, False
        while self.i < self.end:
            c = self.comment(self.i)
            if c:
                self.i, lines = c[0], int(c[1])
            elif self.isc(self.i, SPACE):
                if self.isc(self.i, "\n"):
                    lines += 1
                    brk = brk or lines > 1
                self.i += 1
            else:
                break
        return brk, b

    def text(self):
        """extent of the longest text, or None"""
        b = e = k = self.i
        lines = 0
        while k < self.end:
            if self.isc(k, SPACE):
                if self.isc(k, "\n"):
                    lines += 1
                    if lines > 1:
                        break
                k += 1
                continue
            if self.text_at(k, "//") or self.text_at(k, "/*"):
                break
            if self.isc(k, "\\"):
                if not self.isc(k + 1, "\\{}"):
                    break
                k += 1
            k += 1
            e, lines = k, 0
        self.i = e
        return None if e == b else ("Text", b, e - b)

    # --- rules
    def document(self):
        self.blank()
        return None if self.i >= self.end else self.content()

    def content(self):
        b = self.i
        out, par = [], []

        def flush():
            if par:
                out.append(("List", (par[0][1], par[0][1]), (par[-1][1] + par[-1][2],) * 2, list(par)))
                par.clear()
        while self.i < self.end:
            if self.directive_ahead():
                d = self.directive("block")
                if DIRECTIVES[d[3]][2] == "content":
                    flush()
                    out.append(d)
                else:
                    par.append(d)
            else:
                par.append(self.text())
            brk, _ = self.blank()
            if brk:
                flush()
        flush()
        return ("List", (b, b), (None, self.i), out)

    def identifier(self):
        b = self.i
        if b >= self.end:
            raise Bad("unexpected_eof", b, b)
        if not self.isc(b, ID0):
            raise Bad("unexpected_character", b, b)
        self.i += 1
        while self.isc(self.i, ID0 + DIGITS):
            self.i += 1
        return b, self.i - b

    def directive(self, context):
        start = self.i
        self.i += 1
        b, n = self.identifier()
        name = next((d for d in DIRECTIVES if len(d) == n and self.text_at(b, d)), None)
        if name is None:
            raise Bad("invalid_directive", b, b)
        _, content, env, _ = DIRECTIVES[name]
        if env not in ALLOWS[context]:
            raise Bad("directive_not_allowed", start, b + n)
        args = self.arguments() if self.isc(self.i, "[") else []
        block = self.block(content) if self.isc(self.i, "{") else None
        return ("Directive", start, self.i - start, name, (b, n), args, block)

    def inline_blank(self):
        """a blank in which no paragraph may end"""
        brk, b = self.blank()
        if brk:
            raise Bad("unexpected_character", b, self.i)

    def arguments(self):
        self.i += 1
        args = []
        while True:
            self.inline_blank()
            if self.isc(self.i, "]"):
                self.i += 1
                return args
            b, n = self.identifier()
            self.inline_blank()
            self.one("=")
            self.inline_blank()
            v = self.value()
            for (b2, n2), _ in args:
                if n == n2 and all(self.same(b + k, b2 + k) for k in range(n)):
                    raise Bad("duplicate_argument", b, b)
            args.append(((b, n), v))
            self.inline_blank()
            if self.i >= self.end:
                raise Bad("unexpected_eof", self.i, self.i)
            if self.isc(self.i, ","):
                self.i += 1

    def same(self, i, j):
        return bool(self.run.decide(ops.binary("==", self.s[i], self.s[j], 8, True)))

    def one(self, c):
        if self.i >= self.end:
            raise Bad("unexpected_eof", self.i, self.i)
        if not self.isc(self.i, c):
            raise Bad("unexpected_character", self.i, self.i)
        self.i += 1

    def value(self):
        b = self.i
        if not self.isc(b, DIGITS):
            return ("Identifier",) + self.identifier()
        base, ty = 10, "decimal"
        if self.text_at(b, "0b"):
            base, ty, self.i = 2, "binary", b + 2
        elif self.text_at(b, "0x"):
            base, ty, self.i = 16, "hexadecimal", b + 2
        elif self.isc(b, "0"):
            base = 8
        d = self.i
        v = 0
        while True:
            c = self.s[self.i] if self.i < self.end else None
            if c is not None and self.isc(self.i, DIGITS[:base]):
                v = add(scale(v, base), sub(c, 48))
            elif c is not None and base == 16 and self.isc(self.i, "abcdef"):
                v = add(scale(v, base), sub(c, 87))
            elif c is not None and base == 16 and self.isc(self.i, "ABCDEF"):
                v = add(scale(v, base), sub(c, 55))
            else:
                break
            self.i += 1
        if self.i == d:
            raise Bad("invalid_integer_literal", b, self.i)
        if base == 8 and self.i - b > 1:
            ty = "octal"
        if self.isc(self.i, ID0 + DIGITS):
            raise Bad("integer_suffix", b, self.i)
        v = self.run.concrete(v)
        if not self.run.decide(ops.binary("<=", v, (1 << 63) - 1, 256, True)):
            raise Bad("invalid_integer_literal", b, self.i)
        return ("Number", b, self.i - b, v, (ty, "octal") if base == 8 and self.i - b == 1 else (ty,))

    def raw(self):
        """offset of the brace which ends the block whose content begins at self.i"""
        k, level = self.i, 0
        while True:
            if k >= self.end:
                raise Bad("unexpected_eof", k, k)
            if self.isc(k, "}"):
                if level == 0:
                    return k
                level -= 1
                k += 1
            elif self.isc(k, "{"):
                level += 1
                k += 1
            elif self.isc(k, "\\"):
                k += 2 if self.isc(k + 1, "\\{}") else 1
            elif self.text_at(k, "//") or self.text_at(k, "/*"):
                e, nl = self.comment(k)
                if not nl and e >= self.end:
                    raise Bad(("unterminated_comment", "unexpected_eof"), k, self.end)
                k = e
            else:
                k += 1

    def block(self, content):
        start = self.i
        self.i += 1
        if content == "nothing":
            self.blank()
            if not self.isc(self.i, "}"):
                raise Bad(("directive_must_be_empty", "unexpected_eof") if self.i >= self.end else "directive_must_be_empty", self.i, self.i)
            self.i += 1
            return None
        e = self.raw()
        outer, self.end = self.end, e
        b = self.i
        if content == "raw":
            out = ("Text", b, e - b)
            self.i = e
        elif content == "block":
            self.blank()
            out = self.content()
        elif content in ("meta", "list"):
            kids = []
            self.blank()
            while self.i < self.end:
                if not self.directive_ahead():
                    raise Bad("text_in_directive_list", self.i, self.i)
                kids.append(self.directive(content))
                self.blank()
            out = ("List", (b, None), (None, e), kids)
        else:
            brk, b0 = self.blank()
            if brk:
                raise Bad("paragraph_break_in_span", b0, self.i)
            b1 = self.i
            if content == "text_span":
                out = self.text()
            else:
                kids = []
                out = ("List", (b1, b1), (None, e), kids)
                while self.i < self.end:
                    p = self.i
                    brk, _ = self.blank()
                    if brk:
                        self.i = p
                        break
                    if self.i >= self.end:
                        break
                    kids.append(self.directive("span") if self.directive_ahead() else self.text())
            brk, b0 = self.blank()
            if brk:
                raise Bad("paragraph_break_in_span", b0, self.i)
            if self.i < self.end:
                raise Bad("directive_in_text_span" if self.directive_ahead() else "unexpected_character", self.i, self.i)
        self.end = outer
        self.i = e + 1
        return out


class Reader:
    """the tree as its accessors show it, compared with the reference"""

    def __init__(self, run, ref, src, env):
        self.run, self.ref, self.src, self.env = run, ref, src, env

    def num(self, v):
        return self.run.concrete(v)

    def place(self, o, begin, end):
        """why the position is wrong; begin and end are offsets or (least, largest)"""
        pos = method(self.run, o, "get_source_position")
        b, n = self.num(self.run.field(pos, "begin").v), self.num(self.run.field(pos, "length").v)
        if not isinstance(b, int) or not isinstance(n, int):
            return "the position %r+%r is not determined" % (b, n)
        lo, hi = begin if isinstance(begin, tuple) else (begin, begin)
        if b < lo or hi is not None and b > hi:
            return "begins at %d instead of %s" % (b, begin)
        lo, hi = end if isinstance(end, tuple) else (end, end)
        if b + n > hi or lo is not None and b + n < lo:
            return "extends to %d instead of %s" % (b + n, end)
        got = tuple(self.num(self.run.field(pos, k).v) for k in ("line", "column"))
        want = self.ref.where(b)
        if got != want:
            return "is at line %r column %r instead of line %d column %d" % (got + want)
        return None

    def view(self, sv, b, n):
        if isinstance(sv, Cell):
            sv = sv.v
        if not isinstance(sv, StrObj):
            return "is %r" % (sv,)
        ln = self.num(sv.length)
        if n == 0 and ln == 0:
            return None
        want = self.ref.s[b:b + n]
        got = sv.items()
        if got is None or len(got) != n or any(not self.run.decide(ops.binary("==", x, y, 8, True)) for x, y in zip(got, want) if repr(x) != repr(y)):
            return "is %r instead of characters %d..%d" % (sv, b, b + n)
        if sv.base is not self.src.base or self.num(sv.off) != b:
            return "is not the part of the source"
        return None

    def compare(self, p, t, path):
        """first difference of the node *p from the reference tree"""
        run = self.run
        if t is None:
            return None if p is NULL else "%s: there is a node" % path
        if not isinstance(p, Ptr):
            return "%s: there is no node but should be %s" % (path, t[0])
        v = p.cell.v
        k = self.num(v.idx)
        kind = self.env["kinds"][k]
        if kind != t[0]:
            return "%s: is a %s instead of a %s" % (path, kind, t[0])
        o = v.cells[k]
        if kind == "List":
            why = self.place(o, t[1] if t[1][1] is not None else (t[1][0], t[3][0][1] if t[3] else t[2][1]),
                             t[2] if t[2][0] is not None else (t[3][-1][1] + t[3][-1][2] if t[3] and isinstance(t[3][-1][2], int) else t[3][-1][2][1] if t[3] else t[1][0], t[2][1]))
            if why:
                return "%s: the list %s" % (path, why)
            kids = method(run, o, "get_children")
            n = self.num(kids.length)
            if n != len(t[3]):
                return "%s: has %r children instead of %d" % (path, n, len(t[3]))
            e = self.num(method(run, o, "empty"))
            if bool(e) != (n == 0):
                return "%s: empty() is %r" % (path, e)
            for i, x in enumerate(t[3]):
                why = self.compare(run.elem(kids, i).v, x, "%s.%d" % (path, i))
                if why:
                    return why
            return None
        why = self.place(o, t[1], t[1] + t[2])
        if why:
            return "%s: the %s %s" % (path, kind.lower(), why)
        if kind == "Text":
            why = self.view(method(run, o, "get_text"), t[1], t[2])
            return why and "%s: the text %s" % (path, why)
        ty = self.env["types"].get(self.num(method(run, o, "get_type")))
        if ty != DIRECTIVES[t[3]][0]:
            return "%s: the directive is %s instead of %s" % (path, ty, DIRECTIVES[t[3]][0])
        why = self.view(method(run, o, "get_identifier"), *t[4])
        if why:
            return "%s: the identifier %s" % (path, why)
        args = run.field(o.v, "m_arguments").v
        if not isinstance(args, MapObj):
            raise AnalysisBroken("arguments of a directive")
        if len(args.items) != len(t[5]):
            return "%s: there are %d arguments instead of %d" % (path, len(args.items), len(t[5]))
        for (b, n), val in t[5]:
            hit = [c for k, c in args.items if self.view(k, b, n) is None]
            if not hit:
                return "%s: the argument at %d is missing" % (path, b)
            why = self.value(hit[0], val)
            if why:
                return "%s: the argument at %d %s" % (path, b, why)
        blk = method(run, o, "get_block")
        return self.compare(blk, t[6], path + ".block")

    def value(self, cell, t):
        run = self.run
        v = cell.v
        k = self.num(v.idx)
        kind = self.env["values"][k]
        if kind != t[0]:
            return "is a %s instead of a %s" % (kind, t[0])
        o = v.cells[k]
        why = self.place(o, t[1], t[1] + t[2])
        if why:
            return why
        if kind == "Identifier":
            return self.view(method(run, o, "get_value"), t[1], t[2])
        ty = self.env["literals"].get(self.num(method(run, o, "get_type")))
        if ty not in t[4]:
            return "is a %s literal instead of a %s" % (ty, t[4][0])
        got = method(run, o, "get_value")
        if not run.decide(ops.binary("==", self.num(got), t[3], 256, True)):
            return "has the value %r instead of %r" % (got, t[3])
        return None


def environment(P):
    f = [f for k, l in P.by_q.items() if k.endswith("bmd::parse") for f in l if len(f["p"]) == 2]
    if len(f) != 1:
        raise AnalysisBroken("bmd::parse")

    def alts(rec):
        for r in [rec] + [P.types[b]["n"] for b in P.records.get(rec, {"bases": []})["bases"]]:
            nat = P.native(r)
            if nat and nat[0] in ("variant", "std_variant", "Variant"):
                return [P.strip(x[1])["n"].split("::")[-1] for x in nat[1]]
        raise AnalysisBroken("alternatives of %s" % rec)
    return {"parse": f[0], "kinds": alts(P.record("bmd::ast::Some_Node")), "values": ["Identifier", "Number"],
            "types": {v: k for k, v in P.enum("bmd::Directive_Type").items()}, "literals": {v: k for k, v in P.enum("bit_manipulation::Literal_Type").items()},
            "codes": {v: k for k, v in P.enum("bmd::Parse_Error_Code").items()}}


def run_case(ctx, key, text, env, limit=60000):
    P = ctx.p
    state = {}

    def entry(run):
        chars = []
        for i, t in enumerate(text):
            if t is None or len(t) > 1:
                chars.append(Sym("c%d" % i, 8, True, enum=tuple(range(-128, 128)) if t is None else tuple(sorted(ord(x) for x in t))))
            else:
                chars.append(ord(t))
        state["phase"] = "code"
        src = StrObj(None, CharSeq(chars))
        mem = Ptr(Cell(Obj(None)))
        r = invoke(run, env["parse"], [src, mem])
        state["phase"] = "rules"
        st, val = result_state(run, r)
        ref = Reference(run, chars)
        tree = err = None
        try:
            tree = ref.document()
        except Bad as e:
            err = e.args
        shown = lambda: "source %r" % "".join(chr(x & 255) if isinstance(x, int) else "?" for x in (run.concrete(c) for c in chars))
        why = lambda: "%s; %s" % (shown(), "; ".join("%s=%s" % c for c in run.path_conds[-6:]))
        if err is not None:
            codes = err[0] if isinstance(err[0], tuple) else (err[0],)
            ctx.count("errors")
            if ctx.ok(st == "err", key + ":accepted", "%s: accepted although there is %s at %d [%s]" % (key, codes[0], err[1], why())):
                code = env["codes"].get(run.concrete(run.field(val, "code").v))
                pos = run.field(val, "pos").v
                b = run.concrete(run.field(pos, "begin").v)
                good = code in codes and isinstance(b, int) and err[1] <= b <= err[2]
                if ctx.ok(good, key + ":error", "%s: the error is %s at %r instead of %s at %d..%d [%s]" % (key, code, b, codes[0], err[1], err[2], why())):
                    ref.end = len(chars)
                    got = tuple(run.concrete(run.field(pos, k).v) for k in ("line", "column"))
                    want = ref.where(b)
                    ctx.ok(got == want, key + ":error line", "%s: the error is at line %r column %r instead of %d, %d [%s]" % ((key,) + got + want + (why(),)))
            return
        ctx.count("documents")
        if not ctx.ok(st == "ok", key + ":rejected", "%s: rejected with %s at %r although it is a document [%s]" % (
                key, *(("-", "-") if st == "ok" else (env["codes"].get(run.concrete(run.field(val, "code").v)), run.concrete(run.field(run.field(val, "pos").v, "begin").v))), why())):
            return
        rd = Reader(run, ref, src, env)
        diff = rd.view(run.field(val, "source").v, 0, len(chars)) if chars else None
        diff = diff or rd.compare(run.field(val, "root_node").v, tree, "root")
        ctx.ok(not diff, key + ":tree", "%s: %s [%s]" % (key, diff, why()))

    n = 0
    for p in explore(P, entry, {}, {"unroll": 600, "rec_limit": 60, "max_depth": 900, "linear": True}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.run.notes and p.kind != "return":
            raise AnalysisBroken("%s: %s" % (key, p.run.notes[:2]))
        if p.kind != "return":
            if state["phase"] != "code":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: parsing ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("sources")
    ctx.count("paths", n)


DOCUMENTS = [
    "", "a", "\\b", "\\b{a}", "\\b{a b}", "\\b[x=1]{a}", "a \\b{c} d", "a\n\nb", "\\h1{T}\n\na", "\\br", "\\br{}", "\\hr[x=1]", "\\meta{\\title{T}}",
    "\\meta{ \\bmsfun{f} \\cequiv{g} }", "\\ul{\\item{a}\\item{b}}", "\\note{a\n\nb}", "\\codeblock{a{b}c}", "a\\\\b\\{c\\}", "a/*c*/b", "a//c\nb", "\\b{\\i{a}b}"]


def cases(thorough):
    out = {}
    u = 3 if thorough else 2

    def add_case(*t):
        l = []
        for x in t:
            l += [None] * x if isinstance(x, int) else [x] if isinstance(x, tuple) else list(x)
        l = ["".join(x) if isinstance(x, tuple) else x for x in l]
        k = "".join("?" if x is None else x if len(x) == 1 else "[%s]" % x for x in l)
        out[(k[:60] + (" (%d)" % len(l) if len(l) > 60 else "")).replace("\n", "\\n")] = l
    A = add_case
    contexts = [("", ""), ("a", ""), ("a ", "b"), ("\\", ""), ("\\b", ""), ("\\b{", "}"), ("\\b{a", "b}"), ("\\b[", ""), ("\\b[x", "]"), ("\\b[x=", "]{a}"), ("\\b[x=1", "]"), ("\\b[x=1,", "]"),
                ("\\br", ""), ("\\br{", "}"), ("\\meta{", "}"), ("\\meta{\\title{", "}}"), ("\\meta{\\title{a", "}}"), ("\\ul{", "}"), ("\\ul{\\item{a}", "}"), ("\\note{", "}"),
                ("\\note{a", "\\b{c}}"), ("\\codeblock{", "}"), ("\\codeblock{a", "b}"), ("a\n", "b"), ("a/*", ""), ("a/*", "*/b"), ("a//", "\n\nb"), ("a\\", ""), ("\\h1{a}", "b"),
                ("a\n", "\nb"), ("\\b{a\n", "}"), ("\\b[x=y", "z=1]"), ("\\hr", "a"), ("\\i{", ""), ("a\n\n", ""), ("\\b{", "\\c{d}}"), ("\\b[x=0", "]"), ("a /* b */\n", "c"),
                ("a // b\n", "c")]
    for p, s in contexts:
        for n in range(1, u + 1):
            A(p, n, s)
    # every directive: what it may contain and where it may occur
    for d in DIRECTIVES:
        for c in ("", "{}", "{a}", "{ a }", "{a\n\nb}", "{\\b}", "{\\item}", "{\\title{}}", "{\\hr}", "{a\\br}", "[]{}", "[a=1]", "{a /*c*/ b}", "{/*}*/}", "{//}\n}", "{\n\n}", "{\\note{\\h1{a}}}"):
            A("\\" + d + c)
        A("a \\" + d + "{} b")
        for o in ("b", "note", "meta", "ul", "h2", "item"):
            A("\\" + o + "{\\" + d + "}")
        A("\\ul{\\item{\\" + d + "}}")
        A("\\" + d, 1)
        A("\\", 1, d[1:])
        A("\\" + d[:-1], 1, "{a}")
    # values
    for v in ("0", "1", "0b", "0b1", "0x", "0xf", "00", "9", "abc", "_", "0b102", "089", "922337203685477580", "0x7ffffffffffffff", "0x8000000000000000", "18446744073709551616",
              "9223372036854775808", "0777777777777777777777", "01000000000000000000000", "340282366920938463463374607431768211456"):
        A("\\b[x=" + v, 1, "]")
        A("\\b[x=" + v + "]{a}")
        A("\\b[x =\n" + v + " , y= a]", 1)
    for x in ("[a=1,a=2]", "[a=1,b=2]", "[a=1 a=2]", "[a=1,,b=2]", "[,]", "[a=1,]", "[ ]", "[a]", "[a=]", "[=1]", "[a==1]", "[a=1", "[a=1,", "[", "[a", "[a=", "[\n\n]", "[a\n\n=1]", "[a=\n\n1]",
              "[a=1\n\n]", "[/*c*/a/*c*/=/*c*/1/*c*/]", "[a=1/*", "[/*", "[//c\n]", "[a=-1]", "[a=1a]", "[a=b c=d]", "[ab=1,ac=2]", "[a=1,ab=2]", "[a=\"x\"]"):
        A("\\b" + x)
        A("\\b" + x + "{t}")
        A("\\i{\\b" + x + "}")
        A("\\b" + x, 1)
    A("\\b[a", 1, "=1,a", 1, "=2]")
    A("\\b[", 1, "=1,", 1, "=2]")
    # each character of documents replaced, inserted, removed, cut off
    for d in DOCUMENTS:
        for i in range(len(d)):
            A(d[:i], 1, d[i + 1:])
            A(d[:i], 1, d[i:])
            A(d[:i], d[i + 1:])
            A(d[:i])
            if thorough:
                A(d[:i], 2, d[i + 1:])
        A(d, 1)
    # positions
    for p in ("\n\n\t", "\ta\r\n", " \r\t", "a\tb\n", "\t\t/*\n*/ ", "//c\r\n ", "a\r\n\r\n"):
        for x in ("b", "\\b{c\td}", "\\b[x=1,\n\ty=z]", "\\codeblock{\n\ta\n}", "\\ul{\n\t\\item{a\n\tb}}", "\\meta{\n \\title{\tT }\n}", "\\note{\n\n\ta\n\n\tb}", "\\b{\n\t\\i{\r\t a}}", "\\zz", "\\br{a}"):
            A(p, x)
            A(p, 1, x)
    structural = ("\\{}[]=/*\n a1b,",)
    if thorough:
        A(structural, structural, structural, structural)
        A("\\b{", structural, structural, structural, structural, "}")
    A(structural, structural, structural)
    # blanks of several parts everywhere
    import itertools
    for n in range(1, 6 if thorough else 5):
        for t in itertools.product(("\n", " ", "/*c*/", "//c\n"), repeat=n):
            t = "".join(t)
            A("a" + t + "b")
            if n < (5 if thorough else 4):
                for p, s in (("", "a"), ("\\b{a", "}"), ("\\b{", "b}"), ("\\b{\\c", "b}"), ("\\b[", "]"), ("\\b[x", "=1]"), ("\\b[x=", "y]"), ("\\b[x=1", "]"), ("\\meta{\\title{", "a}}"),
                             ("\\meta{\\title{a", "}}"), ("\\note{", "}"), ("\\ul{", "\\item}"), ("\\br{", "}"), ("\\codeblock{", "}"), ("\\note{a", "b}")):
                    A(p + t + s)
    A("a/", 1, "b")
    A("a /", 1, "*/c")
    return out


def tables(ctx, env):
    """what is said about directives, for all types"""
    P = ctx.p
    en = P.enum("bmd::Directive_Type")
    ctx.ok(set(en) == set(d[0] for d in DIRECTIVES.values()), "directive types", "the directive types differ from the documented ones: %s" % sorted(set(en) ^ set(d[0] for d in DIRECTIVES.values())))
    cont = {v: k for k, v in P.enum("bmd::Directive_Content_Type").items()}
    envs = {v: k for k, v in P.enum("bmd::Directive_Environment").items()}

    def ask(name, args, params):
        f = fn_by(P, "bmd::" + name, params)
        out = []
        for p in explore(P, lambda run: invoke(run, f, args), {}, {}, 200, ctx.stats):
            ctx.saw(p.run)
            if p.kind == "end" and p.why == "infeasible":
                continue
            v = p.value if p.kind == "return" else p.kind
            if isinstance(v, OptObj):
                v = p.run.concrete(v.val.v) if p.run.decide(v.has) else None
            out.append(v.concrete() if isinstance(v, StrObj) else p.run.concrete(v) if p.kind == "return" and v is not None else v)
        return out[0] if len(out) == 1 else out
    T = ["Directive_Type"]
    for d, (t, c, e, tag) in DIRECTIVES.items():
        if t not in en:
            continue
        v = en[t]
        table = [("directive_type_content_type", cont.get(ask("directive_type_content_type", [v], T)), c), ("directive_type_environment", envs.get(ask("directive_type_environment", [v], T)), e),
                 ("directive_type_must_be_empty", bool(ask("directive_type_must_be_empty", [v], T)), c == "nothing"),
                 ("directive_type_is_html_passthrough", bool(ask("directive_type_is_html_passthrough", [v], T)), tag is not None),
                 ("directive_type_by_id", ask("directive_type_by_id", [StrObj(None, d)], [None]), v)]
        if tag is not None:
            table.append(("directive_type_tag", ask("directive_type_tag", [v], T), tag))
        for fn, got, want in table:
            ctx.ok(got == want, "%s(%s)" % (fn, t), "%s(%s) is %r instead of %r" % (fn, t, got, want))
            ctx.count("table entries")
    for bad in ("", "B", "b ", "bb", "bold", "h0", "h7", "codeblocks", "codebloc", "sub2", "zz", "a", "_", "ola", "o"):
        got = ask("directive_type_by_id", [StrObj(None, bad)], [None])
        ctx.ok(got is None, "directive_type_by_id(%r)" % bad, "directive_type_by_id(%r) is %r" % (bad, got))
    cv = {v: k for k, v in cont.items()}
    for c, al in ALLOWS.items():
        for ev, en_ in envs.items():
            got = bool(ask("directive_content_allows", [cv[c], ev], [None, None]))
            ctx.ok(got == (en_ in al), "directive_content_allows(%s, %s)" % (c, en_), "directive_content_allows(%s, %s) is %r" % (c, en_, got))
            ctx.count("table entries")


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every source, the tree with all texts, arguments and positions, or the error and its place, are those of an independent parser of the document grammar; "
             "the tables about directives are the documented ones")
    env = environment(P)
    only = os.environ.get("BMSA_ONLY")
    todo = [(k, t) for k, t in cases(ctx.thorough).items() if not only or only in k]
    k = max(1, len(todo) // 64)
    parallel(ctx, [todo[i::len(todo) // k] for i in range(len(todo) // k)] if not only else [todo], lambda c, l: [run_case(c, key, t, env) for key, t in l])
    if not only:
        tables(ctx, env)
        ctx.need("sources", 500)
        ctx.need("documents", 500)
        ctx.need("table entries", 150)
