"""C17: the command line tool. main() is interpreted for every command with stages (loading, tokenizing, parsing, analysing, generating, printing) which
succeed, fail or throw; the exit status has to tell whether the result was written."""
from ..lib import *  # noqa
from ..lib import Cell, CharSeq, Obj, Ext, Cond, StrObj, VecObj, ElemPtr, Sym, ResultObj, explain, explore, fn_by, invoke, AnalysisBroken
from ..interp import ThrowEx
from ..streams import Stream, show

NS = "bit_manipulation::"
BMS, BMD = NS + "bms::", NS + "bmd::"
COMMANDS = {
    # command, suffix -> stages; the last one writes the result
    ("dump_tokens", ".bms"): ["load", "tokenize", "print tokens"],
    ("dump_ast", ".bms"): ["load", "tokenize", "parse", "print program"],
    ("dump_ast", ".bmd"): ["load", "parse document", "print document"],
    ("verify", ".bms"): ["load", "tokenize", "parse", "analyze"],
    ("generate", ".bms"): ["load", "tokenize", "parse", "analyze", "generate"],
    ("html", ".bmd"): ["load", "parse document", "convert"],
}
PRINTERS = {"load": "print_io_error", "tokenize": "print_tokenize_error", "parse": "print_parse_error", "parse document": "print_parse_error",
            "analyze": "print_analysis_error", "convert": "print_document_error"}


class Exit(Exception):
    def __init__(self, code):
        self.code = code


def V(x):
    return x.v if isinstance(x, Cell) else x


def stream_in(x, depth=0):
    """the stream an object writes to"""
    x = V(x)
    if isinstance(x, Stream):
        return x
    if isinstance(x, Obj) and x.fields and depth < 4:
        for c in x.fields.values():
            s = stream_in(c, depth + 1)
            if s is not None:
                return s
    return None


def state(run, s):
    """whether an error has shown so far: at opening, or when what was written is flushed"""
    if s.path == "file":
        if s.opened is None:
            s.opened = run.decide(Cond("eq", Sym("cannot open", 1)))
        if not s.opened:
            return False
    if s.flushed == len(s.out) and s.out:
        ok = run.decide(Cond("eq", Sym("%s fails after %d" % (s.path, s.flushed), 1)))
        if ok:
            s.verified = s.flushed
        else:
            s.failed = True
    return not s.failed


def stream(name):
    s = Stream(name)
    s.state, s.opened, s.verified, s.failed = state, None, 0, False
    return s


def make_result(run, f, stage, make):
    """success with the value made, or failure"""
    ty = run.type(f["rt"])
    rt = run.type(f["rt"])
    nat, ta = run.p.native(rt["n"])
    ok = run.decide(Cond("eq", Sym("%s fails" % stage, 1)))
    ev = run.opts["events"]
    ev.append((stage, ok))
    r = ResultObj(rt["n"], ta[0][1], ta[1][1], 1 if ok else 0)
    if ok:
        v = make()
        r.val = Cell(v) if v is not None else None
    else:
        et = run.type(ta[1][1])
        err = run.fresh(ta[1][1], stage + " error")
        r.err = Cell(err)
        run.opts["errors"][stage] = err
    return r


def same(a, b):
    a, b = V(a), V(b)
    return a is b or (type(a) is type(b) and repr(a) == repr(b))


def hooks_of(P, throws):
    """stages and printers. throws: a stage at which an exception may be thrown, and which"""
    H = {}

    def fns(q, n):
        return [f for k, l in P.by_q.items() if k == q for f in l if len(f["p"]) == n]

    def stage(name, f, do):
        if f is None:
            raise AnalysisBroken("no function for the stage " + name)

        def hook(run, e, obj, args):
            if throws and throws[0] == name:
                run.opts["events"].append((name, False))
                run.opts["thrown"] = True
                raise ThrowEx(throws[1], Ext(throws[1], "exception") if throws[1] != "bit_manipulation::Assertion_Error" else None, None, "", "planned")
            return do(run, f, [V(a) for a in args])
        H[f["f"]] = hook

    def one(q, n, which=None):
        l = fns(q, n)
        if which:
            l = [f for f in l if any(which in (P.strip(P.types[p["t"]].get("to", p["t"])).get("s") or "") for p in f["p"])]
        return l[0] if len(l) == 1 else None

    def load(run, f, a):
        def made():
            run.opts["source"] = s = StrObj(None, CharSeq([Sym("source%d" % i, 8, True) for i in range(3)]))
            return s
        if not same(a[0], run.opts["file"]):
            run.opts["wrong"].append("loads %r instead of the file given" % (a[0],))
        return make_result(run, f, "load", made)
    stage("load", one(NS + "file_to_string", 2), load)

    def tokenize(run, f, a):
        def made():
            a[0].length = 1
            a[0].elems[0] = Cell(Ext(BMS + "Token", "token of the source"))
            return None
        if V(a[1]).items() != run.opts["source"].items():
            run.opts["wrong"].append("tokenizes something else than the source")
        return make_result(run, f, "tokenize", made)
    stage("tokenize", one(BMS + "tokenize", 2), tokenize)

    def tokens_ok(run, x):
        l = x.items() if hasattr(x, "items") and callable(x.items) else None
        v = getattr(x, "vec", None) or getattr(x, "v", None) or x
        try:
            t = V(v.elems[0])
            ok = getattr(t, "path", None) == "token of the source"
        except Exception:
            ok = False
        if not ok:
            run.opts["wrong"].append("works on other tokens than those of the source: %r" % (x,))

    def parse(run, f, a):
        def made():
            run.field(a[0], "parsed").v = 1
            return None
        tokens_ok(run, a[1])
        if a[0].fields.get("parsed") is None:
            a[0].fields["parsed"] = Cell(0)
        return make_result(run, f, "parse", made)
    stage("parse", one(BMS + "parse", 2), parse)

    def parse_document(run, f, a):
        if a[0].items() != run.opts["source"].items():
            run.opts["wrong"].append("parses something else than the source")
        return make_result(run, f, "parse document", lambda: Ext(BMD + "Parsed_Document", "document"))
    stage("parse document", one(BMD + "parse", 2), parse_document)

    def is_parsed(run, x):
        c = x.fields.get("parsed") if isinstance(x, Obj) and x.fields else None
        if c is None or c.v != 1:
            run.opts["wrong"].append("works on another program than the one parsed")

    def analyze(run, f, a):
        def made():
            a[0].fields["analyzed"] = Cell(1)
            return None
        is_parsed(run, a[1])
        return make_result(run, f, "analyze", made)
    stage("analyze", one(BMS + "analyze", 3), analyze)

    def generate(run, f, a):
        def made():
            a[0].fields["code"] = Cell(1)
            return None
        if not a[1].fields or a[1].fields.get("analyzed") is None:
            run.opts["wrong"].append("generates code for another program than the one analysed")
        if run.opts.get("language") != run.concrete(a[2]):
            run.opts["wrong"].append("generates code in the language %r instead of %r" % (a[2], run.opts.get("language")))
        return make_result(run, f, "generate", made)
    stage("generate", one(BMD + "generate_code", 4), generate)

    def written(name, check=None):
        def do(run, f, a):
            s = V(a[0])
            run.opts["events"].append((name, True))
            if check:
                check(run, a)
            s.out.append(("result", name))
            run.opts["target"] = s
            return Cell(s)
        return do
    stage("print tokens", one(NS + "print_tokens", 3), written("print tokens", lambda run, a: tokens_ok(run, a[1])))
    stage("print program", one(NS + "print_ast", 3, "Parsed_Program"), written("print program", lambda run, a: is_parsed(run, a[1])))
    stage("print document", one(NS + "print_ast", 3, "Parsed_Document"), written("print document"))

    def code_ok(run, a):
        if not isinstance(a[1], Obj) or not a[1].fields or a[1].fields.get("code") is None:
            run.opts["wrong"].append("prints other code than what was generated")
    stage("print code", one(NS + "print_code_string", 3), written("print code", code_ok))

    def convert(run, f, a):
        s = stream_in(a[0])
        if s is None:
            raise AnalysisBroken("the stream of %r is not known" % (a[0],))

        def made():
            s.out.append(("result", "convert"))
            run.opts["target"] = s
            return None
        if getattr(a[1], "path", None) != "document":
            run.opts["wrong"].append("converts another document than the one parsed: %r" % (a[1],))
        return make_result(run, f, "convert", made)
    stage("convert", one(BMD + "doc_to_html", 4), convert)

    for n in ("print_io_error", "print_tokenize_error", "print_parse_error", "print_analysis_error", "print_document_error", "print_assertion_error",
              "print_internal_error_notice"):
        def printer(run, e, obj, args, n=n):
            s = V(args[0])
            s.out.append(("diagnostic", n))
            run.opts["diagnostics"].append((n, s.path, [V(a) for a in args[1:]]))
            return Cell(s)
        H[NS + n] = printer

    def leave(run, e, obj, args):
        raise Exit(run.concrete(V(args[0])))
    for q in ("std::exit", "exit", "std::_Exit", "std::quick_exit", "_exit"):
        H[q] = leave

    def named(run, args):
        p = V(args[0])
        run.opts["opened"] = p.items() if isinstance(p, StrObj) else p
        mode = run.concrete(V(args[1])) if len(args) > 1 else 16
        if mode & 1 or (mode & 8 and not mode & 32):  # app; in without trunc
            run.opts["wrong"].append("opens the output file without discarding its previous contents")

    def open_file(run, e, obj, args):
        s = stream("file")
        run.opts["streams"].append(s)
        if args:
            named(run, args)
        else:
            s.opened = False
        return s

    def open_later(run, e, obj, args):
        V(obj).opened = None
        named(run, args)
    H["std::basic_ofstream<char>::basic_ofstream"] = open_file
    H["std::basic_ofstream<char>::open"] = open_later
    for r in ("Parsed_Program", "Analyzed_Program"):
        def create(run, e, obj, args, r=r):
            if args and isinstance(V(args[0]), Ext) and V(args[0]).rec == BMS + r:
                return V(args[0])
            if r == "Parsed_Program" and not (isinstance(V(args[0]), StrObj) and V(args[0]).items() == run.opts["source"].items()):
                run.opts["wrong"].append("creates a program of something else than the source")
            if r == "Analyzed_Program":
                is_parsed(run, V(args[0]))
            return Ext(BMS + r, r)
        H[BMS + r + "::" + r] = create
        H[BMS + r + "::~" + r] = False  # nothing is destroyed
    return H


def case(ctx, f, words, throws=None, language=None):
    """one invocation; words: command, file and further arguments"""
    P = ctx.p
    cmd, file = (words + ["", ""])[:2]
    stages = COMMANDS.get((cmd, file[-4:])) if len(words) > 1 else None
    if cmd == "generate" and (len(words) < 3 or language is None):
        stages = None
    key = " ".join(words) + (" with %s thrown in %s" % (throws[1].rsplit("::", 1)[-1], throws[0]) if throws else "")

    def entry(run):
        run.opts.update(events=[], errors={}, diagnostics=[], wrong=[], target=None, file=StrObj(None, file), language=language, source=StrObj(None, ""), opened=None, streams=[])
        out, err = stream("stdout"), stream("stderr")
        run.globals["_ZSt4cout"], run.globals["_ZSt4cerr"], run.globals["_ZSt4clog"] = Cell(out), Cell(err), Cell(err)
        argv = VecObj(None, 0, len(words) + 1, None, "array")
        for i, w in enumerate(["bm"] + words):
            argv.elems[i] = Cell(StrObj(None, w))
        how = "returns"
        try:
            code = run.concrete(invoke(run, f, [len(words) + 1, ElemPtr(argv, 0)]))
        except Exit as ex:
            code, how = ex.code, "exits with"
        except ThrowEx as ex:
            ctx.ok(False, "%s:exception" % key, "%s: the exception %s leaves main [%s]" % (key, ex.tname, explain(run, 6)))
            return
        ctx.count("outcomes")
        ev = run.opts["events"]
        done = [s for s, ok in ev]
        failed = [s for s, ok in ev if not ok]
        why = "%s %s; stages %s" % (how, code, ", ".join(s + ("" if ok else " (fails)") for s, ok in ev))
        if not ctx.ok(isinstance(code, int), key + ":code", "%s: the exit status is %r [%s]" % (key, code, explain(run, 6))):
            return
        for w in run.opts["wrong"]:
            ctx.ok(False, "%s:data" % key, "%s: it %s [%s]" % (key, w, why))
        # nothing follows a failure
        ctx.ok(not failed or done[-1] == failed[0], "%s:after" % key, "%s: stages follow the one which failed [%s]" % (key, why))
        said = [c for c in out.out + err.out if not (isinstance(c, tuple) and c[0] == "result")]
        t = run.opts["target"]
        if stages is None:
            ctx.ok(code & 255 != 0, "%s:status" % key, "%s: there is nothing which could be done, but the exit status is 0 [%s]" % (key, why))
            ctx.ok(said, "%s:silent" % key, "%s: there is no message [%s]" % (key, why))
            ctx.ok("convert" not in done and not any(s.startswith("print") for s in done), "%s:stages" % key, "%s: a result is written [%s]" % (key, why))
            return
        complete = not failed and [s for s in done if s != "print code"] == stages and (cmd != "generate" or done[-1] == "print code")
        if cmd == "verify":
            t = out if complete else None
        good = complete and t is not None and t.verified == len(t.out)
        if complete:
            ctx.ok(code & 255 == 0 or (t is not None and t.failed) or run.opts.get("thrown"), "%s:failure" % key,
                   "%s: everything was done and written, but the exit status is %d [%s; %s]" % (key, code, why, [c for c in out.out + err.out if isinstance(c, tuple)][:2] or show(out.out + err.out)[:80]))
        if not failed and not out.failed and not err.failed and not any(x is not None and (x.failed or x.opened is False) for x in run.opts["streams"]):
            ctx.ok(code & 255 == 0, "%s:refused" % key, "%s: nothing failed, but the exit status is %d [%s]" % (key, code, why))
        if code & 255 == 0:
            ctx.ok(complete, "%s:status" % key, "%s: the exit status is 0 although the result was not produced [%s]" % (key, why))
            if complete:
                ctx.ok(good, "%s:written" % key, "%s: the exit status is 0 although the result may not have been written (an error of the stream is not noticed) [%s]" % (key, why))
                want = "file" if len(words) > 2 and cmd == "html" else "stdout"
                ctx.ok(t.path == want, "%s:target" % key, "%s: the result is written to %s [%s]" % (key, t.path, why))
                if want == "file":
                    ctx.ok(run.opts["opened"] == [ord(c) for c in words[2]], "%s:target" % key, "%s: another file is opened: %r" % (key, run.opts["opened"]))
        else:
            ctx.ok(said, "%s:silent" % key, "%s: the exit status is %d, but there is no message [%s]" % (key, code, why))
        if failed and not run.opts.get("thrown") and failed[0] in PRINTERS:
            d = [x for x in run.opts["diagnostics"] if x[0] == PRINTERS[failed[0]]]
            if ctx.ok(d, "%s:diagnostic" % key, "%s: the error of the stage '%s' is not printed [%s]" % (key, failed[0], why)):
                e = run.opts["errors"][failed[0]]
                ctx.ok(any(same(a, e) for a in d[0][2]), "%s:diagnostic" % key, "%s: another error is printed [%s]" % (key, why))
                if failed[0] in ("tokenize", "parse", "parse document", "convert"):
                    texts = [a.items() for a in d[0][2] if isinstance(a, StrObj)]
                    ctx.ok(texts == [[ord(c) for c in file], run.opts["source"].items()], "%s:diagnostic" % key,
                           "%s: the error is not shown with its file and source [%s]" % (key, why))
    for p in explore(P, entry, hooks_of(P, throws), {"unroll": 40}, 4000, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        ctx.ok(p.kind == "return", "%s:fails" % key, "%s: ends with %s [%s]" % (key, p.exc or p.why, explain(p.run, 6)))


def check(ctx):
    ctx.rule("main, interpreted for every command with stages that succeed, fail or throw: exit status 0 if and only if the result was written, and a message otherwise")
    P = ctx.p
    f = [x for x in P.by_q["main"] if len(x["p"]) == 2][0]
    cl = P.enum("bmd::Code_Language")
    for cmd in ("dump_tokens", "dump_ast", "verify", "html"):
        for file in ("a.bms", "a.bmd", "a.txt", "bms", ""):
            case(ctx, f, [cmd, file])
            if cmd == "html":
                case(ctx, f, [cmd, file, "o.html"])
    for lang, v in (("bms", "bms"), ("c", "c"), ("cpp", "cpp"), ("c++", "cpp"), ("java", "java"), ("rust", "rust"), ("klingon", None), ("", None)):
        for file in ("a.bms", "a.bmd", "a"):
            case(ctx, f, ["generate", file, lang], language=None if v is None else cl[v])
    for words in ([], ["html"], ["generate", "a.bms"], ["generate"], ["help"], ["unknown", "a.bms"], ["", "a.bms"], ["HTML", "a.bmd"]):
        case(ctx, f, words)
    for (cmd, suffix), stages in COMMANDS.items():
        for s in stages + (["print code"] if cmd == "generate" else []):
            for ex in ("bit_manipulation::Assertion_Error", "std::bad_alloc", "int"):
                case(ctx, f, [cmd, "a" + suffix] + (["c"] if cmd == "generate" else []), (s, ex), cl["c"])
    languages(ctx)
    consumers(ctx)
    code_strings(ctx)
    files(ctx)
    for n, k in (("outcomes", 150), ("languages", 8), ("consumer functions", 6), ("writes", 200), ("code strings", 300)):
        ctx.need(n, k)


# ------------------------------------------------------------------------------------------------ parts
def run_paths(ctx, key, entry, opts=None, hooks=None):
    for p in explore(ctx.p, entry, hooks or {}, dict({"unroll": 60}, **(opts or {})), 4000, ctx.stats):
        ctx.saw(p.run)
        if p.kind == "end" and p.why == "infeasible":
            continue
        ctx.ok(p.kind == "return", "%s:fails" % key, "%s: ends with %s [%s]" % (key, p.exc or p.why, explain(p.run, 6)))


def languages(ctx):
    """the names of languages"""
    P = ctx.p
    f = fn_by(P, "code_language_by_name", [None])
    g = fn_by(P, BMD + "code_language_readable_name", [None])

    def ask(run, name):
        r = invoke(run, f, [StrObj(None, name)])
        return run.concrete(run.opt_get(r).v) if run.decide(r.has) else None
    for n, v in P.enum("bmd::Code_Language").items():
        def entry(run):
            ctx.ok(ask(run, n) == v, "language:" + n, "the language %s is not found by its name (%r)" % (n, ask(run, n)))
            r = invoke(run, g, [v])
            t = show(r.items()) if r.items() else n
            ctx.ok(ask(run, t) in (v, None), "language:" + n, "the name %r does not denote the language %s" % (t, n))
        run_paths(ctx, "language:" + n, entry)
        ctx.count("languages")
    for n in ("", "cc", "C ", "klingon", "jav", "+", "c++ ", "b"):
        def entry(run):
            ctx.ok(ask(run, n) is None, "language:unknown", "%r is taken for the language %r" % (n, ask(run, n)))
        run_paths(ctx, "language:unknown", entry)


def plain_items(items):
    from ..streams import plain
    return plain(items)[0]


def consumers(ctx):
    """what the HTML writer passes on is what the stream gets"""
    P = ctx.p
    types = P.enum("bmd::HTML_Token_Type")
    for rec, colored in (("Simple_HTML_Consumer", False), ("Colored_HTML_Consumer", True)):
        fs = [f for f in P.by_q.get(NS + rec + "::write", [])]
        ctx.count("consumer functions", len(fs))
        for f in fs:
            kinds = [P.strip(p["t"])["k"] for p in f["p"]]
            for tn, t in types.items():
                for good in (True, False):
                    for n in range(0, 4):
                        if len(f["p"]) == 2 and kinds[0] == "int" and n != 1:
                            continue
                        key = "%s::write(%s)" % (rec, ", ".join(kinds))

                        def entry(run):
                            s = Stream("out", good)
                            o = Obj(P.record(NS + rec))
                            o.fields["out"] = Cell(s)
                            chars = [Sym("c%d" % i, 8, True) for i in range(n)]
                            if len(f["p"]) == 3:
                                c = Sym("c", 8, True)
                                chars = [c] * n
                                args = [c, n, t]
                            else:
                                args = [chars[0] if kinds[0] == "int" else StrObj(None, CharSeq(chars)), t]
                            before = (s.fill, s.left, s.hexadecimal)
                            r = run.concrete(invoke(run, f, args, Cell(o)))
                            out = plain_items(s.out) if colored else s.out
                            if good:
                                ctx.ok([repr(x) for x in out] == [repr(x) for x in chars], key, "%s writes %r instead of %r" % (key, out, chars))
                            ctx.ok(s.width == 0 and (s.fill, s.left, s.hexadecimal) == before, key + ":state", "%s leaves the stream with another format" % key)
                            ctx.ok(r == int(good) or (r is True) == good and r in (True, False), key + ":status",
                                   "%s is %r on a stream which is %s" % (key, r, "good" if good else "bad"))
                        run_paths(ctx, key, entry)
                        ctx.count("writes")


def code_strings(ctx):
    """generated code: the text printed is what was appended, the spans are where they were appended"""
    from itertools import product
    P = ctx.p
    pr = fn_by(P, NS + "print_code_string", [None, None, None])
    rec = BMD + "Code_String"
    ct = fn_by(P, rec + "::Code_String", [None])
    fs = P.by_q[rec + "::append"]

    def app(n, first, second=None):
        l = [f for f in fs if len(f["p"]) == n and P.strip(f["p"][0]["t"])["k"] == first[0] and (first[1] is None or P.strip(f["p"][0]["t"]).get("bits") == first[1])
             and (second is None or P.strip(f["p"][1]["t"])["k"] == second)]
        if len(l) != 1:
            raise AnalysisBroken("%d functions append(%s)" % (len(l), first))
        return l[0]
    A = {"text": app(1, ("rec", None)), "char": app(1, ("int", 8)), "fill": app(2, ("int", 64), "int"), "span": app(2, ("rec", None), "enum"), "char span": app(2, ("int", 8), "enum")}
    types = sorted(P.enum("bmd::Code_Span_Type").values())
    begin, end = fn_by(P, rec + "::begin", []), fn_by(P, rec + "::end", [])
    length, resize = fn_by(P, rec + "::get_length", []), fn_by(P, rec + "::resize", [None])
    text = fn_by(P, rec + "::get_text", [])

    def entry_of(seq, colors, undo):
        def entry(run):
            key = "code string"
            o = Cell(Obj(P.record(rec)))
            m = StrObj(None, "")
            from ..lib import Ptr
            run.call_fn(ct, o, [Cell(Ptr(Cell(Ext("std::pmr::memory_resource", "memory"))))])
            chars, spans = [], []
            mark = None
            for i, op in enumerate(seq):
                if undo == i:
                    mark = (run.copy_val(V(invoke(run, length, [], o))), len(chars), len(spans))
                a, b = Sym("a%d" % i, 8, True), Sym("b%d" % i, 8, True)
                t = types[(i * 3 + len(op)) % len(types)]
                if op == "text":
                    l = [a, b]
                    args = [StrObj(None, CharSeq(l))]
                elif op == "char":
                    l = [a]
                    args = [a]
                elif op == "fill":
                    l = [a, a]
                    args = [2, a]
                elif op == "span":
                    l = [a, b]
                    args = [StrObj(None, CharSeq(l)), t]
                    spans.append((len(chars), 2, t))
                else:
                    l = [a]
                    args = [a, t]
                    spans.append((len(chars), 1, t))
                invoke(run, A[op], args, o)
                chars += l
            if mark:
                invoke(run, resize, [mark[0]], o)
                chars, spans = chars[:mark[1]], spans[:mark[2]]
            r = invoke(run, text, [], o)
            what = "%s after %s%s" % (key, ", ".join(seq), " undone from %d" % undo if mark else "")
            ctx.ok(r.items() is not None and list(map(repr, r.items())) == list(map(repr, chars)), key + ":text", "%s: the text is %r instead of %r" % (what, r.items(), chars))
            s = Stream("out")
            invoke(run, pr, [Cell(s), o, colors])
            got = plain_items(s.out)
            ctx.ok(list(map(repr, got)) == list(map(repr, chars)), key + ":printed", "%s: %r is printed instead of %r" % (what, got, chars))
            ctx.ok(colors or 27 not in s.out, key + ":colors", "%s: escape codes are printed although there should be no colors" % what)
        return entry
    for n in range(0, 4):
        for seq in product(sorted(A), repeat=n):
            for colors in (0, 1):
                run_paths(ctx, "code string", entry_of(seq, colors, None))
                ctx.count("code strings")
            if n == 3:
                for u in range(3):
                    run_paths(ctx, "code string", entry_of(seq, 1, u))


class Source(Ext):
    """an input file: its bytes, and whether it can be opened and read"""

    def __init__(self, name="stream"):
        Ext.__init__(self, "std::basic_ifstream<char>", name)


def files(ctx):
    """loading a file: all its bytes, or an error"""
    P = ctx.p
    f = fn_by(P, NS + "file_to_string", [None, None])
    for n in (0, 1, 2, 100, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000) + ((32768, 65536, 65537) if ctx.thorough else ()):
        for broken in [None, "open"] + [b for b in (0, 1, 4096, 8192) if b <= n]:
            content = [(0, -1, 13, 10, 26, 32, 34, 47)[i % 8] if i % 3 else (i * 7 + i // 256) % 128 for i in range(n)]
            key = "file_to_string"
            what = "a file of %d bytes%s" % (n, "" if broken is None else " which cannot be opened" if broken == "open" else " which cannot be read after %d bytes" % broken)
            st = {}

            def opened(run, e, obj, args):
                if args and isinstance(V(args[0]), Source):
                    return V(args[0])
                s = Source()
                st.update(pos=0, count=0, fail=broken == "open", bad=False, eof=False, exceptions=0)
                p = V(args[0]) if args else None
                ctx.ok(isinstance(p, StrObj) and show(p.items() or []).rstrip("\0") == "FILE", key + ":name", "another file is opened: %r" % (p,))
                return s

            def check():
                if st["exceptions"] & ((1 if st["bad"] else 0) | (4 if st["fail"] else 0) | (2 if st["eof"] else 0)):
                    raise ThrowEx("std::ios_base::failure", Ext("std::ios_base::failure", "failure"), None, "", "stream error")

            def take(k):
                if st["fail"] or st["bad"]:
                    st["count"] = 0
                    return []
                rest = n - st["pos"]
                if broken not in (None, "open") and st["pos"] + k > broken:
                    out = content[st["pos"]:broken]
                    st.update(bad=True, fail=True)
                else:
                    out = content[st["pos"]:st["pos"] + k]
                    if k > rest:
                        st.update(eof=True, fail=True)
                st["pos"] += len(out)
                st["count"] = len(out)
                return out

            def read(run, e, obj, args):
                k = run.concrete(V(args[1]))
                p = V(args[0])
                c = getattr(p, "cell", None)
                vec, i = getattr(c, "o", None), getattr(c, "i", None)
                if c is None:
                    vec, i = getattr(p, "vec", None), getattr(p, "idx", None)
                i = run.concrete(i)
                if not isinstance(k, int) or not isinstance(i, int) or not isinstance(vec, (StrObj, VecObj)):
                    raise AnalysisBroken("the buffer %r is not known" % (p,))
                out = take(k)
                size = len(vec.items()) if isinstance(vec, StrObj) else run.concrete(vec.length)
                ctx.ok(i + k <= size, key + ":buffer", "%s: %d bytes are read into a buffer of %d" % (what, k, size - i))
                if isinstance(vec, StrObj):
                    l = list(vec.items())
                    l[i:i + len(out)] = out
                    vec.base, vec.off, vec.length = CharSeq(l), 0, len(l)
                else:
                    for j, x in enumerate(out):
                        vec.elems[i + j] = Cell(x)
                check()
                return obj

            def get(run, e, obj, args):
                if args:
                    raise AnalysisBroken("get with arguments")
                l = take(1)
                check()
                return l[0] & 255 if l else -1

            def mask(run, e, obj, args):
                st["exceptions"] = run.concrete(V(args[0]))
                check()
                return None
            M = {"read": read, "get": get, "exceptions": mask, "gcount": lambda *a: st["count"], "operator!": lambda *a: int(st["fail"] or st["bad"]),
                 "operator bool": lambda *a: int(not (st["fail"] or st["bad"])), "fail": lambda *a: int(st["fail"] or st["bad"]), "bad": lambda *a: int(st["bad"]),
                 "eof": lambda *a: int(st["eof"]), "good": lambda *a: int(not (st["fail"] or st["bad"] or st["eof"])),
                 "is_open": lambda *a: int(broken != "open"), "close": lambda *a: None}
            H = {"std::basic_ifstream<char>::basic_ifstream": opened}
            for c in ("std::basic_istream<char>", "std::basic_ios<char>", "std::basic_ifstream<char>", "std::ios_base"):
                for m, h in M.items():
                    H[c + "::" + m] = h

            def entry(run):
                from ..lib import Ptr, result_state
                try:
                    r = invoke(run, f, [StrObj(None, "FILE"), Ptr(Cell(Ext("std::pmr::memory_resource", "memory")))])
                except ThrowEx as ex:
                    ctx.ok(broken is not None, key + ":fails", "%s: loading ends with %s" % (what, ex.tname))
                    return
                s, v = result_state(run, r)
                if s == "err":
                    ctx.ok(broken is not None, key + ":error", "%s: loading fails" % what)
                    return
                if not ctx.ok(broken is None or (broken != "open" and broken > n), key + ":error", "%s: loading succeeds" % what):
                    return
                l = v.items() if isinstance(v, StrObj) else None
                if l is None:
                    raise AnalysisBroken("the content %r is not known" % (v,))
                l = [(x + 128) % 256 - 128 if isinstance(x, int) else None for x in l]
                ctx.ok(l == content, key + ":content", "%s: the text has %d characters, which are %sthose of the file" % (what, len(l), "not " if l != content else ""))
            try:
                run_paths(ctx, key, entry, {"unroll": 40}, H)
            except AnalysisBroken as ex:
                ctx.undecide(key, str(ex))
                return
            ctx.count("files")
