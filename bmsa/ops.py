"""Scalar operations over the term domain."""
from .terms import App, Cond, Lin, Sym, add, scale, sub, is_sym, norm_eq


def wrap(v, bits, sg):
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


COMM = {"+", "*", "&", "|", "^"}


def _k(x):
    return (0, x) if isinstance(x, int) else (1, repr(x))


def app(op, args, bits, sg):
    if op in COMM:
        args = sorted(args, key=_k)
    return App(op, args, bits, sg)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binary(op, a, b, bits, sg):
    """a op b in a type of `bits` bits; comparisons yield 0/1 or Cond. Division by a constant zero yields None."""
    if isinstance(a, Cond):
        a = App("b", (a,), 1) if not isinstance(b, int) or op not in ("==", "!=") else a
    if isinstance(b, Cond) and not isinstance(a, Cond):
        b = App("b", (b,), 1)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if isinstance(a, int) and isinstance(b, int):
            return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
        if isinstance(a, Cond):  # comparison of a boolean with a constant
            want = (b != 0) == (op == "==")
            return a if want else Cond(a.kind, a.lin, not a.neg)
        if op == "==" or op == "!=":
            return Cond("eq", norm_eq(sub(a, b)), op == "!=") if not isinstance(sub(a, b), int) else \
                int((sub(a, b) == 0) == (op == "=="))
        if op == "<":
            l = sub(sub(b, a), 1)
        elif op == "<=":
            l = sub(b, a)
        elif op == ">":
            l = sub(sub(a, b), 1)
        else:
            l = sub(a, b)
        if isinstance(l, int):
            return int(l >= 0)
        return Cond("ge", l)
    if isinstance(a, int) and isinstance(b, int):
        if op == "+":
            return wrap(a + b, bits, sg)
        if op == "-":
            return wrap(a - b, bits, sg)
        if op == "*":
            return wrap(a * b, bits, sg)
        if op == "/":
            return None if b == 0 else wrap(tdiv(a, b), bits, sg)
        if op == "%":
            return None if b == 0 else wrap(a - b * tdiv(a, b), bits, sg)
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return wrap(a ^ b, bits, sg)
        if op == "<<":
            return None if not 0 <= b < bits else wrap(a << b, bits, sg)
        if op == ">>":
            return None if not 0 <= b < bits else wrap(a >> b, bits, sg)
    if bits <= 64:
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            if isinstance(a, int):
                return scale(b, a)
            if isinstance(b, int):
                return scale(a, b)
    else:
        if op in ("+", "|", "^") and (a == 0 or b == 0) and (isinstance(a, int) or isinstance(b, int)):
            return b if isinstance(a, int) and a == 0 else a
    if isinstance(b, int):
        if op == "/" and b == 1 or op in ("<<", ">>") and b == 0:
            return a
        if op == "%" and b == 1:
            return 0
    if op == "*" and bits > 64:
        if isinstance(a, int) and a in (0, 1):
            return b if a else 0
        if isinstance(b, int) and b in (0, 1):
            return a if b else 0
    if op == "&":
        if a == b:
            return a
        if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
            return 0
        full = (1 << bits) - 1
        if not sg and (isinstance(a, int) and a == full):
            return b
        if not sg and (isinstance(b, int) and b == full):
            return a
        # (x & m) & m = x & m
        if isinstance(a, App) and a.op == "&" and b in a.args:
            return a
        if isinstance(b, App) and b.op == "&" and a in b.args:
            return b
    if op == "|" and a == b:
        return a
    return app(op, (a, b), bits, sg)


def unary(op, a, bits, sg):
    if op == "-":
        if isinstance(a, int):
            return wrap(-a, bits, sg)
        if bits <= 64:
            return scale(a, -1)
        return App("neg", (a,), bits, sg)
    if op == "~":
        if isinstance(a, int):
            return wrap(~a, bits, sg)
        if isinstance(a, App) and a.op == "~" and a.bits == bits:
            return a.args[0]
        return App("~", (a,), bits, sg)
    if op == "!":
        if isinstance(a, int):
            return int(not a)
        if isinstance(a, Cond):
            return Cond(a.kind, a.lin, not a.neg)
        return Cond("eq", a)
    if op == "+":
        return a
    raise KeyError(op)


def rebuild(x, args):
    op = x.op
    if op == "b":
        a = args[0]
        return a if isinstance(a, (int, Sym, App)) else App("b", (a,), 1)
    if op in ("neg",):
        return unary("-", args[0], x.bits, x.sg)
    if op == "~":
        return unary("~", args[0], x.bits, x.sg)
    if op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
        r = binary(op, args[0], args[1], x.bits, x.sg)
        return App(op, args, x.bits, x.sg) if r is None else r
    if op == "cast" and isinstance(args[0], int):
        return wrap(args[0], x.bits, x.sg)
    return App(op, args, x.bits, x.sg)
