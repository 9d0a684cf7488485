"""C14: documents as HTML. Sources with symbolic characters are parsed and converted through the public entry points; what the converter writes
is read as HTML5 reads it, and the elements, attributes and texts (or the error) are compared, path by path, with those of an independent
reading of the document."""
from ..lib import *  # noqa
from ..lib import Cell, CharSeq, Obj, Ptr, StrObj, SpanObj, VecObj, Sym, explain, explore, fn_by, invoke, parallel, result_state, AnalysisBroken
from . import document, tokens
from .document import DIRECTIVES, Bad, Reference, SPACE

LANGUAGES = {"bms": "bms", "bmd": "", "c": "", "c++": "", "cxx": "", "cpp": "", "rust": "", "plain": "", "plaintext": "", "text": "", "raw": ""}
ARCHITECTURES = {"x86": "https://www.felixcloutier.com/x86/", "x86_64": "https://www.felixcloutier.com/x86/", "arm": "", "risc_v": "", "power": "", "power_pc": "", "sparc": "", "mips": "",
                 "ibm_z": ""}
VOID = ("br", "hr", "link")
ENTITIES = {"&lt;": 60, "&gt;": 62, "&amp;": 38, "&quot;": 34}
SPAN_TAGS = {"identifier": "c-idn", "type_name": "c-typ", "bracket": "c-bra", "number": "c-int", "string": "c-str", "comment": "c-com", "operation": "c-opr",
             "punctuation": "c-pun", "keyword": "c-key", "boolean_literal": "c-bol", "error": "c-err"}


def category(ty):
    if ty == "identifier" or ty.endswith("_comment"):
        return "identifier" if ty == "identifier" else "comment"
    if ty in ("left_parenthesis", "right_parenthesis", "left_brace", "right_brace"):
        return "bracket"
    if ty == "string_literal":
        return "string"
    if ty.endswith("_literal"):
        return "number"
    if ty == "double_right_arrow":
        return "error"
    if ty in ("at", "dot", "colon", "comma", "semicolon", "right_arrow"):
        return "punctuation"
    if ty in ("keyword_true", "keyword_false"):
        return "boolean_literal"
    if ty in ("keyword_uint", "keyword_int", "keyword_bool", "keyword_void"):
        return "type_name"
    return "keyword" if ty.startswith("keyword_") else "operation"


class DocError(Exception):
    """codes, first and last offset at which it may be reported"""


class Malformed(Exception):
    pass


class Element:
    def __init__(self, tag, attrs, kids, kind):
        self.tag, self.attrs, self.kids, self.kind = tag, attrs, kids, kind


# --- what is written, as HTML5 reads it
class Html:
    def __init__(self, run, out):
        self.run, self.s, self.i = run, out, 0

    def isc(self, c, values):
        return self.run.member(c, [ord(x) for x in values])

    def at(self, values, off=0):
        return self.i + off < len(self.s) and self.isc(self.s[self.i + off], values)

    def literal(self, t):
        if self.i + len(t) > len(self.s) or not all(self.at(c, k) for k, c in enumerate(t)):
            return False
        self.i += len(t)
        return True

    def need(self, t):
        if not self.literal(t):
            raise Malformed("%r expected at %d" % (t, self.i))

    def spaces(self):
        b = self.i
        while self.at(SPACE):
            self.i += 1
        return self.i - b

    def char(self):
        if self.at("&"):
            for e, v in ENTITIES.items():
                if self.literal(e):
                    return v
            raise Malformed("an ampersand which is no character reference at %d" % self.i)
        self.i += 1
        return self.s[self.i - 1]

    def name(self, more):
        out = ""
        while self.i < len(self.s) and isinstance(self.run.concrete(self.s[self.i]), int) and chr(self.run.concrete(self.s[self.i]) & 255) in more:
            out += chr(self.run.concrete(self.s[self.i]) & 255)
            self.i += 1
        return out

    def document(self):
        self.spaces()
        self.need("<!DOCTYPE html>")
        out = self.nodes(None)
        if self.i < len(self.s):
            raise Malformed("the end of an element which is not open at %d" % self.i)
        out = [k for k in out if not isinstance(k, list) or not all(self.isc(c, SPACE) for c in k)]
        if len(out) != 1 or not isinstance(out[0], Element) or out[0].tag != "html":
            raise Malformed("there is not exactly one element html")
        return out[0]

    def nodes(self, parent):
        """elements and texts (lists of characters) up to the end of the parent"""
        out = []
        while self.i < len(self.s):
            if not self.at("<"):
                c = self.char()
                if out and isinstance(out[-1], list):
                    out[-1].append(c)
                else:
                    out.append([c])
                continue
            if self.at("/", 1):
                return out
            self.i += 1
            letters = "abcdefghijklmnopqrstuvwxyz"
            tag = self.name(letters + "0123456789-")
            if not tag or tag[0] not in letters:
                raise Malformed("no name of an element at %d" % self.i)
            attrs = []
            while True:
                gap = self.spaces()
                if self.literal("/>") or self.literal(">"):
                    break
                if not gap:
                    raise Malformed("an attribute which no blank precedes at %d" % self.i)
                attrs.append(self.attribute())
            el = Element(tag, attrs, [], None)
            out.append(el)
            if tag not in VOID:
                el.kids = self.nodes(el)
                self.need("</")
                if self.name(letters + "0123456789-") != tag:
                    raise Malformed("the end of another element than %s at %d" % (tag, self.i))
                self.need(">")
        if parent is not None:
            raise Malformed("the element %s does not end" % parent.tag)
        return out

    def attribute(self):
        key, val = [], None
        while self.i < len(self.s) and not self.at(SPACE + "\"'<>/="):
            key.append(self.s[self.i])
            self.i += 1
        if not key:
            raise Malformed("no name of an attribute at %d" % self.i)
        if self.literal("="):
            val = []
            q = next((q for q in "\"'" if self.literal(q)), None)
            while True:
                if self.i >= len(self.s):
                    raise Malformed("an attribute does not end")
                if q and self.literal(q):
                    break
                if not q and self.at(SPACE + ">"):
                    break
                if not q and self.at("\"'<=`"):
                    raise Malformed("a character which is not allowed without quotes at %d" % self.i)
                val.append(self.char())
            if not q and not val:
                raise Malformed("an attribute without value at %d" % self.i)
        return key, val or []


# --- what should be written
class Expected:
    def __init__(self, run, ref, root, sheets):
        self.run, self.ref = run, ref
        links = [Element("link", [(word("rel"), word("stylesheet")), (word("href"), s)], [], "blocks") for s in sheets]
        self.tree = Element("html", [], [Element("head", [], links, "blocks"), Element("body", [], self.content(root, True), "blocks")], "blocks")

    def blankat(self, i):
        return 0 <= i < len(self.ref.s) and (self.ref.isc(i, SPACE) or self.ref.isc(i, "/"))

    def content(self, t, top=False):
        out = []
        if t is None:
            return out
        for i, k in enumerate(t[3]):
            if k[0] == "List":
                out.append(Element("p", [], self.inline(k, None), "inline"))
            elif k[3] == "meta":
                if not top or i:
                    raise DocError("meta_not_at_start_of_file", k[1], k[1] + k[2])
                out += self.meta(k)
            else:
                out += self.directive(k)
        return out

    def inline(self, t, block):
        """texts and elements; "sp" where there is a blank, "sp?" where one at the end of a block may count"""
        out = []
        end = None
        for k in t[3]:
            if end is not None and end < k[1]:
                out.append("sp")
            out += self.text(k[1], k[2]) if k[0] == "Text" else self.directive(k)
            end = k[1] + k[2]
        return self.ends(out, block, (t[3][0][1], end) if t[3] else None)

    def ends(self, out, block, extent):
        """block: offsets of its content"""
        if block is None:
            return ["sp?"] + out + ["sp?"]
        b, e = block
        if extent is None:
            return ["sp?"] if b < e else []
        return (["sp?"] if b < extent[0] else []) + out + (["sp?"] if extent[1] < e else [])

    def text(self, b, n):
        out, i = [], b
        while i < b + n:
            if self.ref.isc(i, "\\") and i + 1 < b + n:
                i += 1
                out.append(self.ref.s[i])
            elif self.ref.isc(i, SPACE):
                if not out or out[-1] != "sp":
                    out.append("sp")
            else:
                out.append(self.ref.s[i])
            i += 1
        return out

    def word(self, t):
        """characters of an argument's value"""
        if t[0] == "Number":
            v = self.run.concrete(t[3])
            if not isinstance(v, int):
                raise AnalysisBroken("a number which is not determined is written")
            return word(str(v))
        return self.ref.s[t[1]:t[1] + t[2]] if len(t) == 3 and t[0] == "Identifier" else None

    def attrs(self, d):
        return [(self.ref.s[b:b + n], self.value(v)) for (b, n), v in d[5]]

    def value(self, v):
        if v[0] == "Number":
            x = self.run.concrete(v[3])
            if not isinstance(x, int):
                raise AnalysisBroken("the number %r is not determined" % (x,))
            return word(str(x))
        return self.ref.s[v[1]:v[1] + v[2]]

    def argument(self, d, key):
        for (b, n), v in d[5]:
            if n == len(key) and self.ref.text_at(b, key):
                if v[0] == "Number":
                    raise DocError("number_attribute_not_allowed", d[1], d[1] + d[2])
                return v[1], v[2]
        return None

    def choice(self, d, key, table, default, error):
        a = self.argument(d, key)
        if a is None:
            return table[default]
        b, n = a
        for k, v in table.items():
            if len(k) == n and self.ref.text_at(b, k):
                return v
        raise DocError(error, d[1], d[1] + d[2])

    def extent(self, d):
        """offsets of the content of the block"""
        e = d[1] + d[2] - 1
        b = d[4][0] + d[4][1]
        if self.ref.isc(b, "["):
            r = Reference(self.run, self.ref.s)
            r.i = b
            r.arguments()
            b = r.i
        return (b + 1, e) if self.ref.isc(b, "{") else None

    def directive(self, d):
        name = d[3]
        content = DIRECTIVES[name][1]
        if name in ("c", "codeblock"):
            return [self.code(d)]
        if name == "instruction":
            return self.instruction(d)
        tag = {"item": "li", "note": "div"}.get(name, DIRECTIVES[name][3])
        attrs = self.attrs(d)
        t = d[6]
        if t is None or content == "nothing":
            return [Element(tag, attrs, [], "blocks" if content in ("list", "block") else "inline")]
        if content == "span":
            return [Element(tag, attrs, self.inline(t, self.extent(d)), "inline")]
        if content == "list":
            return [Element(tag, attrs, [x for k in t[3] for x in self.directive(k)], "blocks")]
        if content == "block":
            return [Element(tag, attrs, self.content(t), "blocks")]
        raise AnalysisBroken("content of " + name)

    def meta(self, d):
        title = None
        for k in d[6][3] if d[6] is not None else []:
            if k[3] == "title":
                if title is not None:
                    raise DocError("duplicate_meta_entry", k[1], k[1] + k[2])
                title = k
        if title is None:
            return []
        t = title[6]
        kids = [] if t is None else self.ends(self.text(t[1], t[2]), self.extent(title), (t[1], t[1] + t[2]))
        return [Element("h1", self.attrs(title), kids, "inline?" if t is None else "inline")]

    def code(self, d):
        tag = "code" if d[3] == "c" else "pre"
        lang = self.choice(d, "lang", LANGUAGES, "bms", "invalid_language")
        if d[6] is None:
            return Element(tag, None, [], "code")
        b, n = d[6][1], d[6][2]
        chars = self.ref.s[b:b + n]
        if not lang:
            return Element(tag, None, list(chars), "code")
        got, err = tokens.Lexer(self.run, chars).tokens()
        if err is not None:
            raise DocError("code_tokenization_failure", d[1], d[1] + d[2])
        kids, end = [], 0
        for ty, k, ln, _, _ in got:
            kids += chars[end:k]
            kids.append(Element(SPAN_TAGS[category(ty)], [], list(chars[k:k + ln]), "exact"))
            end = k + ln
        return Element(tag, None, kids + list(chars[end:]), "code")

    def instruction(self, d):
        link = self.choice(d, "arch", ARCHITECTURES, "x86", "invalid_architecture")
        ext = self.argument(d, "ext")
        t = d[6]
        kids, raw = [], []
        if t is not None:
            kids = self.ends(self.text(t[1], t[2]), self.extent(d), (t[1], t[1] + t[2]))
            i = t[1]
            while i < t[1] + t[2]:
                if self.ref.isc(i, "\\") and i + 1 < t[1] + t[2]:
                    i += 1
                raw.append(self.ref.s[i])
                i += 1
        out = [Element("code", [], kids, "inline")]
        if link:
            out = [Element("a", [(word("href"), word(link) + raw)], out, "inline")]
        if ext is not None:
            out.append(Element("sup", [], self.ref.s[ext[0]:ext[0] + ext[1]], "inline"))
        return out


def word(s):
    return [ord(c) for c in s]


class Comparison:
    def __init__(self, run, chars):
        self.run, self.chars = run, chars

    def same(self, a, b):
        return repr(a) == repr(b) or bool(self.run.decide(ops.binary("==", a, b, 8, True)))

    def string(self, a, b):
        return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))

    def isspace(self, c):
        return self.run.member(c, [ord(x) for x in SPACE])

    def show(self, l):
        out = ""
        for c in l:
            c = self.run.concrete(c) if not isinstance(c, (str, Element)) else c
            out += "<%s>" % c.tag if isinstance(c, Element) else " " if c == "sp" else c if isinstance(c, str) else chr(c & 255) if isinstance(c, int) else "?"
        return repr(out)

    def element(self, got, want, path):
        path += "/" + want.tag
        if got.tag != want.tag:
            return "%s: is <%s>" % (path, got.tag)
        if want.attrs is not None:
            if len(got.attrs) != len(want.attrs):
                return "%s: has %d attributes instead of %d" % (path, len(got.attrs), len(want.attrs))
            for k, v in want.attrs:
                hit = [gv for gk, gv in got.attrs if self.string(gk, k)]
                if len(hit) != 1:
                    return "%s: the attribute %s is missing" % (path, self.show(k))
                if not self.string(hit[0], v):
                    return "%s: the attribute %s is %s instead of %s" % (path, self.show(k), self.show(hit[0]), self.show(v))
        flat = [c for k in got.kids for c in (k if isinstance(k, list) else [k])]
        if want.kind == "blocks":
            kids = []
            for c in flat:
                if isinstance(c, Element):
                    kids.append(c)
                elif not self.isspace(c):
                    return "%s: contains the text %s" % (path, self.show(flat))
            return self.kids(kids, want.kids, path)
        if want.kind == "exact":
            return self.kids(flat, want.kids, path)
        if want.kind == "code":
            return self.kids(self.strip(flat), self.strip(want.kids), path)
        # a run of blanks counts as one
        out = []
        for c in flat:
            if not isinstance(c, Element) and self.isspace(c):
                if not out or out[-1] != "sp":
                    out.append("sp")
            else:
                out.append(c)
        exp = list(want.kids)
        if exp and exp[0] == "sp?":
            exp.pop(0)
            if out and out[0] == "sp":
                out.pop(0)
        if exp and exp[-1] == "sp?":
            exp.pop()
            if out and out[-1] == "sp":
                out.pop()
        e2 = []
        for c in exp:
            if c == "sp" and e2 and e2[-1] == "sp":
                continue
            e2.append(c)
        return self.kids(out, e2, path)

    def strip(self, l):
        l = list(l)
        while l and not isinstance(l[0], Element) and self.isspace(l[0]):
            l.pop(0)
        while l and not isinstance(l[-1], Element) and self.isspace(l[-1]):
            l.pop()
        return l

    def kids(self, got, want, path):
        bad = "%s: contains %s instead of %s" % (path, self.show(got), self.show(want))
        if len(got) != len(want):
            return bad
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, Element):
                if not isinstance(g, Element):
                    return bad
                why = self.element(g, w, "%s[%d]" % (path, i))
                if why:
                    return why
            elif isinstance(g, Element) or isinstance(w, str) != isinstance(g, str):
                return bad
            elif isinstance(w, str):
                if w != g:
                    return bad
            elif not self.same(g, w):
                return bad
        return None


def environment(P):
    env = document.environment(P)
    f = [f for k, l in P.by_q.items() if k.endswith("bmd::doc_to_html") for f in l]
    if len(f) != 1:
        raise AnalysisBroken("doc_to_html")
    env["html"] = f[0]
    env["errors"] = {v: k for k, v in P.enum("bmd::Document_Error_Code").items()}
    opt = P.strip(f[0]["p"][2]["t"])["n"]
    env["options"] = opt
    env["consumer"] = P.record("bmd::HTML_Token_Consumer")
    return env


def symbols(text, prefix):
    out = []
    for i, t in enumerate(text):
        if t is None or len(t) > 1:
            out.append(Sym("%s%d" % (prefix, i), 8, True, enum=tuple(range(-128, 128)) if t is None else tuple(sorted(ord(x) for x in t))))
        else:
            out.append(ord(t))
    return out


def run_case(ctx, key, text, env, sheets=(), indent=2, limit=60000):
    P = ctx.p
    state = {}

    def entry(run):
        out = state["out"] = []

        def write(run, e, obj, args):
            if obj is not state["consumer"] and obj.v is not state["consumer"].v:
                return NotImplemented
            a = [x.v if isinstance(x, Cell) else x for x in args]
            if isinstance(a[0], StrObj):
                items = a[0].items()
                if items is None:
                    raise AnalysisBroken("a text which is not determined is written")
                out.extend(items)
            elif len(a) == 3:
                n = run.concrete(a[1])
                if not isinstance(n, int) or n < 0 or n > 10000:
                    ctx.ok(False, key + ":repeat", "%s: a character is written %r times" % (key, n))
                    raise PathEnd("infeasible")
                out.extend([a[0]] * n)
            else:
                out.append(a[0])
            return 1
        run.opts["on_virtual"] = write
        chars = symbols(text, "c")
        shs = [symbols(s, "s%d_" % i) for i, s in enumerate(sheets)]
        state["phase"] = "parse"
        mem = Ptr(Cell(Obj(None)))
        r = invoke(run, env["parse"], [StrObj(None, CharSeq(chars)), mem])
        state["phase"] = "rules"
        st, doc = result_state(run, r)
        ref = Reference(run, chars)
        tree = None
        try:
            tree = ref.document()
            good = True
        except Bad:
            good = False
        if st != "ok" or not good:
            # C19 compares these
            ctx.count("no documents")
            return
        state["phase"] = "code"
        consumer = state["consumer"] = Cell(Obj(env["consumer"]))
        o = Obj(env["options"])
        run.field(o, "indent_width").v = indent
        v = VecObj("sheets", None, len(shs))
        for i, s in enumerate(shs):
            run.elem(v, i).v = StrObj(None, CharSeq(s))
        run.field(o, "stylesheets").v = SpanObj(None, v, 0, len(shs))
        r = invoke(run, env["html"], [consumer, Cell(doc), Cell(o), mem])
        state["phase"] = "rules"
        st, val = result_state(run, r)
        shown = "source %r" % "".join(chr(x & 255) if isinstance(x, int) else "?" for x in (run.concrete(c) for c in chars))
        html = "".join(chr(x & 255) if isinstance(x, int) else "?" for x in (run.concrete(c) for c in out))
        why = lambda: "%s; %s" % (shown, "; ".join("%s=%s" % c for c in run.path_conds[-6:]))
        err = want = None
        try:
            want = Expected(run, ref, tree, shs).tree
        except DocError as e:
            err = e.args
        if err is not None:
            ctx.count("errors")
            if ctx.ok(st == "err", key + ":accepted", "%s: converted although there is %s at %d [%s]" % (key, err[0], err[1], why())):
                code = env["errors"].get(run.concrete(run.field(val, "code").v))
                pos = run.field(val, "pos").v
                got = tuple(run.concrete(run.field(pos, k).v) for k in ("begin", "line", "column"))
                ref.end = len(chars)
                good = code == err[0] and isinstance(got[0], int) and err[1] <= got[0] <= err[2] and got[1:] == ref.where(got[0])
                ctx.ok(good, key + ":error", "%s: the error is %s at %r instead of %s at %d..%d [%s]" % (key, code, got, err[0], err[1], err[2], why()))
            return
        ctx.count("documents")
        if not ctx.ok(st == "ok", key + ":rejected", "%s: not converted but %s [%s]" % (key, "-" if st == "ok" else env["errors"].get(run.concrete(run.field(val, "code").v)), why())):
            return
        try:
            got = Html(run, out).document()
        except Malformed as e:
            ctx.ok(False, key + ":malformed", "%s: the HTML is malformed: %s; %r [%s]" % (key, e, html, why()))
            return
        diff = Comparison(run, chars).element(got, want, "")
        ctx.ok(not diff, key + ":html", "%s: %s; %r [%s]" % (key, diff, html, why()))

    n = 0
    for p in explore(P, entry, {}, {"unroll": 600, "rec_limit": 60, "max_depth": 900, "linear": True, "digits": True}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.run.notes and p.kind != "return":
            raise AnalysisBroken("%s: %s" % (key, p.run.notes[:2]))
        if p.kind != "return":
            if state["phase"] == "rules":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            if state["phase"] == "parse":
                continue
            ctx.ok(False, key + ":crash", "%s: conversion ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("sources")
    ctx.count("paths", n)


def cases(thorough):
    out = {}

    def A(*t, sheets=(), indent=2):
        l = []
        for x in t:
            l += [None] * x if isinstance(x, int) else [x] if isinstance(x, tuple) else list(x)
        l = ["".join(x) if isinstance(x, tuple) else x for x in l]
        k = "".join("?" if x is None else x if len(x) == 1 else "[%s]" % x for x in l)
        k = (k[:60] + (" (%d)" % len(l) if len(l) > 60 else "")).replace("\n", "\\n")
        if sheets or indent != 2:
            k += " sheets %r indent %d" % (sheets, indent)
        out[k] = (l, sheets, indent)
    u = 3 if thorough else 2
    # any characters in every place where text, names and code may stand
    contexts = [("", ""), ("a", "b"), ("\\b{", "}"), ("\\b{a", "b} c"), ("\\h1{", "}"), ("\\ul{\\item{", "}}"), ("\\note{", "}"), ("\\meta{\\title{", "}}"), ("\\meta{\\title{a", "b}}\n\nc"),
                ("\\c[lang=text]{", "}"), ("\\codeblock[lang=raw]{", "}"), ("\\c[lang=c]{a", "b}"), ("\\instruction{", "}"), ("\\instruction{a", "b}"), ("\\instruction[arch=arm]{", "}"),
                ("\\b{", "\\i{c}}"), ("a\n", "b"), ("\\b{a}", "\\i{b}"), ("\\b", "\\i"), ("a\\br", "b"), ("a ", "\\br b"), ("\\b{a ", "}"), ("\\note{a\n\n", "\n\nb}"), ("\\ul{\\item{a}", "\\item{b}}"),
                ("\\q{", "\\s{a}b}"), ("\\hr", "a"), ("a\n\n", "\n\nb"), ("\\", "{a}"), ("\\b[x=", "]{a}"), ("\\b[x=1,", "=2]{a}"), ("\\b[", "x]")]
    for p, s in contexts:
        for n in range(1, u + 1):
            A(p, n, s)
    structural = ("<>&\"'\\{} \na/=",)
    for p, s in contexts:
        A(p, structural, structural, structural, s)
    # code
    for p, s in (("\\c{", "}"), ("\\codeblock{", "}"), ("a \\c[lang=bms]{", "} b")):
        for n in range(1, u + 1):
            A(p, n, s)
        for x in list(tokens.FIXED) + list(tokens.KEYWORDS) + ["a", "12", "0xf", "0b1", "017", "\"a\"", "/*c*/", "//c\n", "\"<&>\"", "/* <b> */", "//<&\n"]:
            if x in "{}":
                continue
            A(p, x, s)
            A(p, x, " ", x, s)
            if x.isalnum():
                A(p, x, 1, s)
        A(p, "function f(x: Int) -> Int {\n    return x + 1;\n}", s)
        A(p, "\n\tlet x =\t1;\r\n\n  const y: Uint(8) = 1 << 3; // end\n", s)
        A(p, "a\n", 1, "b < c & d > e", s)
        for x in ("", " ", "\n", "`", "\"", "0b", "#", "a $ b", "1a", "\"a", "{}", "{{a}b}", "\\{", "a\\}", "\\\\", "\\b{a}", "/*}*/", "//}\n", "\\meta{}"):
            A(p, x, s)
    # languages, architectures, extensions
    for l in list(LANGUAGES) + ["java", "BMS", "bm", "bmss", "plain_text", "_", "1", "0x1"]:
        if "+" in l:
            continue
        for d in ("c", "codeblock"):
            A("\\%s[lang=%s]{a <b> + \"c\"}" % (d, l))
            A("\\%s[lang=%s]" % (d, l))
            A("\\%s[lang=%s]{`}" % (d, l))
        A("\\c[lang=" + l[:-1], 1, "]{a + 1}")
        A("\\c[lang=" + l, 1, "]{a}")
    for l in list(ARCHITECTURES) + ["x87", "x86_", "riscv", "ppc", "ARM", "ibm", "7"]:
        for a in ("arch=" + l, "arch=%s,ext=AVX" % l, "ext=bmi2,arch=" + l):
            A("a \\instruction[%s]{pdep} b" % a)
        A("\\instruction[arch=" + l + "]")
        A("\\instruction[arch=" + l[:-1], 1, "]{a}")
    for a in ("ext=1", "ext=_", "ext=a_b", "arch=x86,ext=2", "lang=c", "x=1"):
        A("\\instruction[" + a + "]{popcnt}")
        A("\\c[" + a + "]{popcnt}")
    A("\\instruction[ext=a", 1, "]{a}")
    A("\\instruction[", 1, "xt=a]{a}")
    A("\\instruction")
    A("\\instruction{}")
    A("\\instruction{a /*b*/}")
    # every directive with arguments, contents and neighbours, within every other
    for d in DIRECTIVES:
        for c in ("", "{}", "{a}", "{ a }", "{a  b\n c}", "{\\b}", "{\\item}", "{\\item{a}\n \\item{ b }}", "{\\title{}}", "{a\\br}", "[]{}", "[x=1]", "[x=y]{a}", "[x=1,y=z_1,z=0x10]{a}", "{a /*c*/ b}",
                  "{\n\n}", "{a\n\nb}", "{\\h1{a}}", "{\\b{a}\\i{b}}", "{\\b{a} \\i{b}}", "{/*c*/\\b{a}/*c*/\\i{b}//c\n}", "{\\b{a}\nb\n\\i{c}}"):
            A("\\" + d + c)
            A("x \\" + d + c + "y")
        for c in ("", "{}", "{a}", "[x=1]"):
            for o in DIRECTIVES:
                A("\\" + o + "{\\" + d + c + "}")
            A("\\ul{\\item{\\" + d + c + "}}")
            A("a\n\n\\" + d + c + "\n\nb")
            A("\\" + d + c + "\\" + d + c)
            A("\\" + d + c + "\n\\" + d + c)
        A("\\" + d, "[", 1, "=1]")
        A("\\" + d, "[a=", 1, "]{a}")
    # blocks in blocks
    for x in ("\\note{a\n\n\\note{b\n\n\\ul{\\item{c}\\item{\\b{d}}}}\n\ne}", "\\note{\\codeblock{a\n  b}\\hr\\h2{c}}", "\\ol[x=1]{\\item[y=2]{a}\n\\item{}}\n\\hr[z=3]\\hr{}",
              "\\note{\\note{}}\\note", "\\b{\\i{\\u{\\s{a}b}c}d}", "\\b{a}\\br\\i{b}\\br{}\\br[x=1]c", "a\\br\nb\n\\br\nc", "\\codeblock{\n  a\n    b\n}", "\\note{\\codeblock[lang=text]{\n  a\n    b\n}}",
              "\\ul{}\\ol{\\item}", "\\h1{a}\\h2{b}\nc\\h3{d}e"):
        A(x)
        for n in (0, 1, 3):
            A(x, indent=n)
        for i in range(len(x)):
            if x[i] in " \nabcde":
                A(x[:i], 1, x[i + 1:])
    # metadata
    for x in ("\\title{T}", "\\title[x=1]{T}", "\\title[x=1]", "\\title", "\\title{}", "\\title{ A  B\nC }", "\\title{A}\\title{B}", "\\title\\title", "\\title{A}\\bmsfun{f}\\cequiv{g}",
              "\\bmsfun{f}", "\\bmsfun", "\\cequiv{<}\\title{<&>\"'\\{\\}\\\\}", "\\bmsfun{f} \\title{\\{a\\}} \\bmsfun{g}", ""):
        for p, s in (("\\meta{", "}"), (" \n/*c*/\\meta{ ", " }a\n\nb"), ("a\n\n\\meta{", "}"), ("\\hr\\meta{", "}"), ("\\meta{}\\meta{", "}"), ("\\note{\\meta{", "}}"), ("\\meta\\meta{", "}"),
                     ("\\h1{a}\\meta{", "}"), ("\\codeblock{a}\\meta{", "}"), ("\\c{a}\\meta{", "}"), ("\\instruction\\meta{", "}"), ("\\meta{", "}\\c[lang=x]")):
            A(p + x + s)
    # blanks of several parts between texts and directives
    import itertools
    for n in range(1, 5 if thorough else 4):
        for t in itertools.product(("\n", " ", "/*c*/", "//c\n", "\t", "\r\n"), repeat=n):
            t = "".join(t)
            if n == 3 and not thorough and len(set(t)) == 1:
                continue
            for p, s in (("a", "b"), ("a", "\\i{b}"), ("\\b{a}", "c"), ("\\b{a}", "\\i{b}"), ("\\b{a", "\\i}"), ("\\b{", "a}"), ("\\b{\\i", "}")):
                A(p + t + s)
    # style sheets
    for n in (0, 2, 4):
        for d in ("", "a", "\\b{a}"):
            A(d, sheets=(), indent=n)
            A(d, sheets=("a.css",), indent=n)
            A(d, sheets=("/css/main.css", "x y"), indent=n)
    for x in ("a?b=c&d", "\"", "'", "a\"b&amp;c", "<>", "`", "a\\b", "a=b", "&quot;", ""):
        A("a", sheets=(x,))
    for k in range(1, u + 1):
        A("", sheets=((None,) * k,))
    A("", sheets=(("a", None, "b"),))
    for d in document.DOCUMENTS:
        A(d)
        for n in (0, 4):
            A(d, indent=n)
        for i in range(len(d)):
            A(d[:i], 1, d[i + 1:])
            A(d[:i], 1, d[i:])
            A(d[:i], d[i + 1:])
    return out


def tables(ctx):
    """what is said about languages and kinds of code, for all values"""
    P = ctx.p

    def table(fn, params, enum, want):
        if not has_fn(P, fn):
            return
        f = fn_by(P, fn, params)
        en = P.enum(enum)
        for n, v in en.items():
            for p in explore(P, lambda run: invoke(run, f, [v]), {}, {}, 50, ctx.stats):
                ctx.saw(p.run)
                got = p.value if p.kind == "return" else p.kind
                got = got.concrete() if isinstance(got, StrObj) else got
                ctx.ok(n in want and got == want[n], "%s(%s)" % (fn, n), "%s(%s) is %r instead of %r" % (fn, n, got, want.get(n)))
                ctx.count("table entries")
        ctx.ok(set(en) == set(want), fn, "%s: the values are %s instead of %s" % (enum, sorted(en), sorted(want)))
    table("bmd::code_span_type_tag", ["Code_Span_Type"], "bmd::Code_Span_Type", SPAN_TAGS)
    names = {"bms": "BMS", "c": "C", "cpp": "C++", "rust": "Rust", "java": "Java", "kotlin": "Kotlin", "javascript": "JavaScript", "typescript": "TypeScript"}
    table("bmd::code_language_name", ["Code_Language"], "bmd::Code_Language", {k: k for k in names})
    table("bmd::code_language_readable_name", ["Code_Language"], "bmd::Code_Language", names)
    types = P.enum("bms::Token_Type")
    f = [f for k, l in P.by_q.items() if k.endswith("::categorize_token_type") for f in l]
    if len(f) == 1:
        cats = {v: k for k, v in P.enum("bmd::Code_Span_Type").items()}
        for n, v in types.items():
            for p in explore(P, lambda run: invoke(run, f[0], [v]), {}, {}, 50, ctx.stats):
                ctx.saw(p.run)
                got = cats.get(p.run.concrete(p.value)) if p.kind == "return" else p.kind
                ctx.ok(got == category(n), "category of %s" % n, "the category of %s is %s instead of %s" % (n, got, category(n)))
                ctx.count("table entries")


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every document, what is written is well-formed HTML whose elements, attributes and texts are those the directives stand for, or the documented error is reported")
    env = environment(P)
    only = os.environ.get("BMSA_ONLY")
    todo = [(k, t) for k, t in cases(ctx.thorough).items() if not only or only in k]
    k = max(1, len(todo) // 64)
    parallel(ctx, [todo[i::len(todo) // k] for i in range(len(todo) // k)] if not only else [todo], lambda c, l: [run_case(c, key, t[0], env, *t[1:]) for key, t in l])
    if not only:
        tables(ctx)
        ctx.need("sources", 3000)
        ctx.need("documents", 3000)
        ctx.need("errors", 50)
        ctx.need("table entries", 50)
