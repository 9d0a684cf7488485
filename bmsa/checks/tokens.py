"""C15: tokenization. Sources with symbolic characters are tokenized through the public entry point; tokens, their types, extents and
lines, and the error are compared, path by path, with an independent lexer. The tables about tokens are compared with the spellings."""
from ..lib import *  # noqa
from ..lib import Cell, PathEnd, CharSeq, StrObj, VecObj, ResultObj, Sym, Cond, explain, explore, fn_by, invoke, method, result_state, AnalysisBroken

FIXED = {"(": "left_parenthesis", ")": "right_parenthesis", "{": "left_brace", "}": "right_brace", "=": "assign", "==": "equals", "!=": "not_equals", "+": "plus",
         "-": "minus", "*": "multiplication", "/": "division", "%": "remainder", "<": "less_than", ">": "greater_than", "<=": "less_or_equal", ">=": "greater_or_equal",
         "<<": "shift_left", ">>": "shift_right", "&": "bitwise_and", "|": "bitwise_or", "~": "bitwise_not", "^": "bitwise_xor", "&&": "logical_and", "||": "logical_or",
         "!": "logical_not", "->": "right_arrow", "=>": "double_right_arrow", ".": "dot", ":": "colon", ",": "comma", "@": "at", ";": "semicolon"}
KEYWORDS = {"as": "keyword_as", "let": "keyword_let", "const": "keyword_const", "function": "keyword_function", "while": "keyword_while", "if": "keyword_if",
            "else": "keyword_else", "Uint": "keyword_uint", "Int": "keyword_int", "Bool": "keyword_bool", "Void": "keyword_void", "requires": "keyword_requires",
            "return": "keyword_return", "break": "keyword_break", "continue": "keyword_continue", "true": "keyword_true", "false": "keyword_false",
            "static_assert": "keyword_static_assert"}
LETTER = [ord(c) for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"]
DIGIT = [ord(c) for c in "0123456789"]
SPACE = [ord(c) for c in " \t\r\n"]


class LexError(Exception):
    pass


class Lexer:
    """longest match over known and unknown characters"""

    def __init__(self, run, chars):
        self.run, self.s, self.i, self.line, self.col = run, chars, 0, 0, 0

    def isc(self, i, values):
        if i >= len(self.s):
            return False
        return self.run.member(self.s[i], [ord(c) for c in values] if isinstance(values, str) else values)

    def text(self, i, t):
        return all(self.isc(i + k, c) for k, c in enumerate(t))

    def advance(self, n):
        for _ in range(n):
            if self.isc(self.i, "\n"):
                self.line, self.col = self.line + 1, 0
            elif self.isc(self.i, "\r"):
                self.col = 0
            elif self.isc(self.i, "\t"):
                self.col += 4
            else:
                self.col += 1
            self.i += 1

    def tokens(self):
        """([(type, begin, length, line, column)], error or None)"""
        out = []
        try:
            while True:
                while self.isc(self.i, SPACE):
                    self.advance(1)
                if self.i >= len(self.s):
                    return out, None
                ty, n = self.match()
                out.append((ty, self.i, n, self.line, self.col))
                if ty == "line_comment":
                    # the rest of the line; its columns do not matter afterwards
                    self.i += n
                else:
                    self.advance(n)
        except LexError as e:
            return out, e.args

    def fail(self, code, off=0):
        raise LexError(code, self.i + off, self.line)

    def match(self):
        i = self.i
        n = len(self.s)
        if self.text(i, "//"):
            k = i + 2
            while k < n and not self.isc(k, "\n"):
                k += 1
            return "line_comment", k - i
        if self.text(i, "/*"):
            k = i + 2
            while k < n and not self.text(k, "*/"):
                k += 1
            if k >= n:
                self.fail("unterminated_comment")
            return "block_comment", k + 2 - i
        if self.isc(i, '"'):
            k = i + 1
            while k < n and not self.isc(k, '"'):
                k += 2 if self.isc(k, "\\") else 1
            if k >= n:
                self.fail("unterminated_string")
            return "string_literal", k + 1 - i
        if self.isc(i, DIGIT):
            base, k, ty = 10, i, "decimal_literal"
            if self.isc(i, "0"):
                if self.isc(i + 1, "b"):
                    base, k, ty = 2, i + 2, "binary_literal"
                elif self.isc(i + 1, "x"):
                    base, k, ty = 16, i + 2, "hexadecimal_literal"
                else:
                    base = 8
            b = k
            digs = "0123456789abcdefABCDEF" if base == 16 else "0123456789"[:base]
            while self.isc(k, digs):
                k += 1
            if k == b:
                self.fail("no_digits_following_integer_prefix", 2)
            if base == 8 and k - i > 1:
                ty = "octal_literal"
            if self.isc(k, LETTER + DIGIT):
                self.fail("integer_suffix", k - i)
            return ty, k - i
        for ln in (2, 1):
            for f in FIXED:
                if len(f) == ln and self.text(i, f):
                    return FIXED[f], ln
        if self.isc(i, LETTER):
            k = i + 1
            while self.isc(k, LETTER + DIGIT):
                k += 1
            for w in KEYWORDS:
                if len(w) == k - i and self.text(i, w):
                    return KEYWORDS[w], k - i
            return "identifier", k - i
        self.fail("illegal_character")


def run_case(ctx, key, text, tt, ec, limit=60000):
    P = ctx.p
    cand = [f for k, l in P.by_q.items() if k.endswith("bms::tokenize") for f in l if len(f["p"]) == 2]
    if len(cand) != 1:
        raise AnalysisBroken("tokenize")
    f = cand[0]
    vt = P.strip(f["p"][0]["t"])
    state = {}

    def entry(run):
        chars = []
        for i, t in enumerate(text):
            if t is None or len(t) > 1:
                chars.append(Sym("c%d" % i, 8, True, enum=tuple(range(-128, 128)) if t is None else tuple(sorted(ord(x) for x in t))))
            else:
                chars.append(ord(t))
        state["phase"] = "code"
        out = Cell(VecObj(vt["n"], P.native(vt["n"])[1][0][1], 0))
        r = invoke(run, f, [out, StrObj(None, CharSeq(chars))])
        state["phase"] = "rules"
        want, err = Lexer(run, chars).tokens()
        st, val = result_state(run, r)
        src = "".join(chr(x & 255) if isinstance(x, int) else "?" for x in (run.concrete(c) for c in chars))
        why = "source %r; " % src + "; ".join("%s=%s" % c for c in run.path_conds[-6:])
        if err is not None:
            if ctx.ok(st == "err", key + ":accepted", "%s: no error although there is %s [%s]" % (key, err[0], why)):
                code = ec.get(run.concrete(run.field(val, "code").v))
                pos = run.field(val, "pos").v
                got = (code, run.concrete(run.field(pos, "begin").v), run.concrete(run.field(pos, "line").v))
                ctx.ok(got == err, key + ":error", "%s: the error is %r instead of %r [%s]" % (key, got, err, why))
            return
        if not ctx.ok(st == "ok", key + ":rejected", "%s: rejected with %s although it consists of tokens [%s]" % (
                key, "-" if st == "ok" else ec.get(run.concrete(run.field(val, "code").v)), why)):
            return
        n = run.concrete(out.v.length)
        got = []
        for i in range(n if isinstance(n, int) else 0):
            t = run.elem(out.v, i).v
            pos = run.field(t, "pos").v
            got.append((tt.get(run.concrete(run.field(t, "type").v)),) + tuple(run.concrete(run.field(pos, k).v) for k in ("begin", "length", "line", "column")))
        ctx.ok(got == want, key + ":tokens", "%s: the tokens (type, begin, length, line, column) are %r instead of %r [%s]" % (key, got, want, why))

    n = 0
    for p in explore(P, entry, {}, {"unroll": 700}, limit, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        n += 1
        if p.kind != "return":
            if state["phase"] != "code":
                raise AnalysisBroken("%s: %s" % (key, p.why or p.exc))
            ctx.ok(False, key + ":crash", "%s: tokenization ends with %s (%s) [%s]" % (key, p.kind, p.why or p.exc, explain(p.run, 8)))
    ctx.count("sources")
    ctx.count("paths", n)


def cases(thorough):
    out = {}

    def add(*t):
        l = []
        for x in t:
            l += [None] * x if isinstance(x, int) else [x] if isinstance(x, tuple) else list(x)
        l = ["".join(x) if isinstance(x, tuple) else x for x in l]
        out["".join("?" if x is None else x if len(x) == 1 else "[%s]" % x for x in l)[:60] + (" (%d)" % len(l) if len(l) > 60 else "")] = l
    add("")
    for n in (1, 2):
        add(n)
    structural = ('"\\/*\n 0xb1a=<>&|!-+',)
    if thorough:
        add(3)
    add(structural, structural, structural)
    # every operator next to and in front of any character
    for f in FIXED:
        add(f, 1)
        add(1, f)
        add(" \n\t", f, "a")
        add("a", f, "\n ", f, "1")
    for w in KEYWORDS:
        add(w)
        add(w, 1)
        add(1, w)
        for i in range(len(w)):
            add(w[:i], 1, w[i + 1:])
        add(w[:-1])
        add(w[:1].swapcase() + w[1:])
    # literals
    for p in ("0", "1", "0b", "0x", "00", "01", "12", "0b1", "0xf", "0b10", "0xfA", "017", "129", "0xABCDEFabcdef0123456789", "0b01", "9876543210", "01234567"):
        add(p, 1)
        add(p, 1, ";")
        add(" ", p, 1, "a")
    # identifiers
    add("x", 1)
    add("_", 1, "9")
    add("a" * 300, 1)
    add("1" * 300, 1)
    add("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", 1)
    # strings
    for p in ('""', '"', '"a"', '"\\"', '"\\\\"', '"\\\\', '"\\', '"a\nb" c', '"\t" a', '"\r\n"a', '"\\\n"\n"', '"\n\n" "'):
        add(p)
        add(p, 1)
        add(p, 1, '"')
        add(p, 1, '" x')
    add('"', 1, 1, '"')
    add('"', 1, '" ', 1)
    add('"' + "y" * 300, 1, '" z')
    # comments
    for p in ("//", "/*", "/**", "/*/", "/***", "/* * /", "/*\n", "// a", "//*", "/* //", "/*\r\n\t"):
        add(p)
        add(p, 1)
        add(p, 1, 1)
        add(p, 1, "*/")
        add(p, 1, "\nz")
        add(p, "*/ ", 1)
        add(p, 1, "*/", 1)
        add("x ", p, 1, "*/\ty")
        add(p, "\n", 1)
    add("a/", 1, "b")
    add("a /", 1, "b\n*/c")
    add("/*" + "w" * 300 + "\n", 1, "*/v")
    # positions after several tokens and lines
    for p in ("\n\n  a\tb ", "\ta\r\n", "let x = 1;\n\tif ", "a\n/* \n */ b\n", '"x" ', "// c\n// d\n\t", "\r\r ", "a \n"):
        add(p, 1)
        add(p, "x", 1)
        add(p, "0x", 1)
        add(p, "\n\"", 1)
    add(" ", 1, " ", 1, " ")
    add("a", 1, "a", (" \n;/*=",), "a")
    return out


CLASSES = {
    "is_comment": ["line_comment", "block_comment"],
    "is_unary_operator": ["plus", "minus", "logical_not", "bitwise_not"],
    "is_arithmetic_operator": ["plus", "minus", "multiplication", "division", "remainder"],
    "is_bitwise_operator": ["bitwise_and", "bitwise_or", "bitwise_not", "bitwise_xor", "shift_left", "shift_right"],
    "is_comparison_operator": ["equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal"],
    "is_relational_comparison_operator": ["less_than", "greater_than", "less_or_equal", "greater_or_equal"],
    "is_logical_operator": ["logical_not", "logical_and", "logical_or"],
    "is_boolean_literal": ["keyword_true", "keyword_false"],
    "is_integer_literal": ["binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal"],
    "is_literal": ["binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal", "keyword_true", "keyword_false", "string_literal"],
    "is_binary_operator": ["plus", "minus", "multiplication", "division", "remainder", "equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal",
                           "logical_and", "logical_or", "shift_left", "shift_right", "bitwise_and", "bitwise_or", "bitwise_xor"],
}


def tables(ctx):
    P = ctx.p
    spelling = {v: k for k, v in list(FIXED.items()) + list(KEYWORDS.items())}
    variable = ("identifier", "decimal_literal", "octal_literal", "hexadecimal_literal", "binary_literal", "string_literal", "block_comment", "line_comment")
    en = {n: v for n, v in P.enum("bms::Token_Type").items()}
    ctx.ok(set(en) == set(spelling) | set(variable), "token types", "the token types differ from those of the language: %s" % sorted(set(en) ^ (set(spelling) | set(variable))))
    want = {c: {n: int(n in l) for n in en} for c, l in CLASSES.items()}
    want["token_type_name"] = {n: n for n in en}
    want["token_type_code_name"] = {n: spelling.get(n, {"block_comment": "/*", "line_comment": "//"}.get(n, "")) for n in en}
    want["token_type_length"] = {n: len(spelling[n]) if n in spelling else 0 for n in en}
    for name, table in want.items():
        if not has_fn(P, "bms::" + name):
            continue
        f = fn_by(P, "bms::" + name, ["Token_Type"])
        for n, v in en.items():
            for p in explore(P, lambda run: invoke(run, f, [v]), {}, {}, 50, ctx.stats):
                ctx.saw(p.run)
                got = p.value if p.kind == "return" else p.kind
                if isinstance(got, StrObj):
                    got = got.concrete()
                elif p.kind == "return":
                    got = p.run.concrete(got)
                    got = int(got) if isinstance(got, bool) else got
                ctx.ok(got == table.get(n), "%s(%s)" % (name, n), "%s(%s) is %r instead of %r" % (name, n, got, table.get(n)))
                ctx.count("table entries")


def check(ctx):
    import os
    P = ctx.p
    ctx.rule("for every source, the tokens (kind, extent, line, column) or the error are those of an independent longest-match lexer; the tables about tokens agree with the spellings")
    tt = {v: k for k, v in P.enum("bms::Token_Type").items()}
    ec = {v: k for k, v in P.enum("bms::Tokenize_Error_Code").items()}
    only = os.environ.get("BMSA_ONLY")
    for key, t in cases(ctx.thorough).items():
        if not only or only in key:
            run_case(ctx, key, t, tt, ec)
    if not only:
        tables(ctx)
        ctx.need("sources", 200)
        ctx.need("table entries", 200)
