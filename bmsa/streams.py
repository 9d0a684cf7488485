"""Output streams: what is written, character by character, with the formatting state that decides about padding."""
from .values import Ext, StrObj, Cell, FnRef
from .terms import is_sym

NI = NotImplemented


class Stream(Ext):
    """out: characters (int or term) and ('num', term) for numbers which are not known"""

    def __init__(self, name, good=True, rec="std::basic_ostream<char>"):
        Ext.__init__(self, rec, name)
        self.state, self.flushed = None, 0
        self.out, self.width, self.fill, self.left, self.good, self.hexadecimal = [], 0, 32, False, good, False

    def pad(self, l):
        w, self.width = self.width, 0
        f = [self.fill] * max(0, w - len(l))
        return l + f if self.left else f + l


class Manip(Ext):
    def __init__(self, kind, arg):
        Ext.__init__(self, "manipulator", kind)
        self.kind, self.arg = kind, arg


def V(a):
    return a.v if isinstance(a, Cell) else a


def text(run, s, v, e):
    """write a value; False when its characters are not known"""
    v = V(v)
    if isinstance(v, Manip):
        if v.kind == "setw":
            s.width = run.concrete(v.arg)
        elif v.kind == "setfill":
            s.fill = run.concrete(v.arg)
        return True
    if isinstance(v, FnRef):
        n = v.q.rsplit("::", 1)[-1]
        if n in ("left", "right", "internal"):
            s.left = n == "left"
        elif n in ("endl", "flush"):
            s.out += [10] if n == "endl" else []
            s.flushed = len(s.out)
        elif n in ("hex", "oct"):
            s.hexadecimal = True
        elif n == "dec":
            s.hexadecimal = False
        return True
    if isinstance(v, StrObj):
        l = v.items()
        s.out += s.pad(list(l)) if l is not None else [("str", v)]
        return True
    return False


def number(run, s, v):
    v = run.concrete(V(v))
    if isinstance(v, int) and not s.hexadecimal:
        s.out += s.pad([ord(c) for c in str(v)])
    else:
        s.out.append(("num", v))
        s.width = 0


def char_type(run, e, i):
    pt = e.get("pt") or []
    if i < len(pt):
        ty = run.p.strip(pt[i])
        return ty["s"].replace("const ", "") in ("char", "signed char", "unsigned char")
    return False


def shift(run, e, args):
    """std::operator<<(stream, x)"""
    s = V(args[0])
    if not isinstance(s, Stream):
        return NI
    x = V(args[1])
    if not text(run, s, x, e):
        if isinstance(x, int) or is_sym(x):
            s.out += s.pad([run.concrete(x)])
        else:
            run.note("unknown output")
            s.out.append(("unknown", x))
    return args[0]


def method(run, e, cell, s, n, args):
    if n == "operator<<":
        x = V(args[0])
        if not text(run, s, x, e):
            if isinstance(x, int) or is_sym(x):
                number(run, s, x)
            else:
                s.out.append(("unknown", x))
        return cell
    if n == "put":
        s.out.append(run.concrete(V(args[0])))
        return cell
    if n == "write":
        p, k = V(args[0]), run.concrete(V(args[1]))
        l = p.items() if isinstance(p, StrObj) else None
        s.out += list(l[:k]) if l is not None and isinstance(k, int) else [("str", p)]
        return cell
    if n in ("flush", "close"):
        s.flushed = len(s.out)
        return cell
    if n in ("operator bool", "good", "operator!", "fail", "bad", "is_open") and s.state is not None:
        r = s.state(run, s)
        return int(r if n in ("operator bool", "good", "is_open") else not r)
    if n == "fill":
        old = s.fill
        if args:
            s.fill = run.concrete(V(args[0]))
        return old
    if n == "width":
        old = s.width
        if args:
            s.width = run.concrete(V(args[0]))
        return old
    if n in ("operator bool", "good"):
        return int(s.good) if isinstance(s.good, bool) else s.good
    if n in ("operator!", "fail", "bad"):
        return int(not s.good) if isinstance(s.good, bool) else int(not run.decide(s.good))
    if n in ("is_open",):
        return int(s.good) if isinstance(s.good, bool) else s.good
    if n in ("eof", "clear", "setstate", "exceptions", "setf", "unsetf", "flags", "precision"):
        return 0
    return NI


def plain(items):
    """the characters without escape sequences for colours; whether there were any"""
    out, i, esc = [], 0, False
    while i < len(items):
        if items[i] == 27:
            esc = True
            while i < len(items) and items[i] != ord("m"):
                i += 1
            i += 1
            continue
        out.append(items[i])
        i += 1
    return out, esc


def show(items):
    return "".join(chr(c & 255) if isinstance(c, int) else "<%s>" % (c[0] if isinstance(c, tuple) else "?") for c in items)
