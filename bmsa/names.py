"""Opaque identifiers: strings which are only compared. Every comparison splits the path; the answers form an equivalence relation."""
from .values import StrObj, SymStr
from .terms import Sym, add


class Names:
    def __init__(self):
        self.rep = {}
        self.diff = set()
        self.ids = set()

    def new(self, name):
        self.ids.add(name)
        return StrObj(None, SymStr(name, add(Sym("len(%s)" % name, 62), 1)))

    def ident(self, o):
        c = o.concrete()
        if c is not None:
            return ("lit", c)
        if isinstance(o.base, SymStr) and o.base.name in self.ids:
            return ("name", o.base.name)
        return None

    def find(self, x):
        while x in self.rep:
            x = self.rep[x]
        return x

    def eq(self, run, a, b):
        a, b = self.ident(a), self.ident(b)
        if a is None or b is None or a[0] == b[0] == "lit":
            return None
        return int(self.same(run, a, b))

    def same(self, run, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if (a[0] == b[0] == "lit") or frozenset((a, b)) in self.diff:
            return False
        if run.choose(2) == 0:
            if b[0] == "lit":
                a, b = b, a
            self.rep[b] = a
            self.diff = {frozenset(a if x == b else x for x in d) for d in self.diff}
            run.path_conds.append(("%s = %s" % (a[1], b[1]), True))
            return True
        self.diff.add(frozenset((a, b)))
        run.path_conds.append(("%s = %s" % (a[1], b[1]), False))
        return False
