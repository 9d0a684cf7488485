"""C05: every instruction of the virtual machine has its documented effect, in every machine state."""
import itertools
from ..ast import *  # noqa
from ..ast import NS
from .operators import Env, VOID, BOOL, INT, UINT, BINARY, UNARY
from .codegen import Instructions, E_show

CMP = ("equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal")


class Machine:
    def __init__(self, run, E, I):
        self.run, self.P, self.E, self.I = run, run.p, E, I
        self.vm = Cell(construct(run, NS + "Virtual_Machine", [None], [NULL]))
        self.prog = method(run, self.vm, "instructions")
        if not isinstance(self.prog, VecObj):
            raise AnalysisBroken("instructions() is no sequence")
        self.L = Sym("size", 40)
        self.prog.length, self.prog.path, self.prog.elems = self.L, "prog", {}
        run.facts.assume(ops.binary(">=", self.L, 1, 64, False), True)
        self.c = Sym("counter", 40)
        run.facts.assume(ops.binary("<", self.c, self.L, 64, False), True)
        before = {k: repr(c.v) for k, c in self.vm.v.fields.items()}
        self.at(self.c)
        ch = [k for k, c in self.vm.v.fields.items() if before.get(k) != repr(c.v)]
        if len(ch) != 1:
            raise AnalysisBroken("instruction counter not identified: %s" % ch)
        self.cf = ch[0]
        self.n = 0
        f = [m for m in self.P.by_q.get(NS + "Virtual_Machine::cycle", [])]
        if len(f) != 1:
            raise AnalysisBroken("Virtual_Machine::cycle")
        self.cyc = f[0]

    def at(self, c):
        method(self.run, self.vm, "jump_to", [c])

    def counter(self):
        return self.run.concrete(self.vm.v.fields[self.cf].v)

    def put(self, idx, ins):
        self.prog.elems[self.run.concrete(idx)] = Cell(ins)

    def cycle(self):
        r = self.run.call_fn(self.cyc, self.vm, [], by_decl=True)
        r = r.v if isinstance(r, Cell) else r
        return result_state(self.run, r)

    def ins(self, kind, **kw):
        self.n += 1
        v = self.I.make(self.run, kind, **kw)
        self.run.variant_cell(v, v.idx)
        o = list(v.cells.values())[0].v
        di = self.run.field(o, "debug_info").v
        self.last_debug = di.path
        return v

    def step(self, kind, **kw):
        """place an instruction at the counter and execute it"""
        self.put(self.counter(), self.ins(kind, **kw))
        return self.cycle()

    def val(self, t, name):
        return self.E.mk_cval(self.run, t, name)

    def push(self, cv):
        method(self.run, self.vm, "push", [cv])

    def size(self):
        return self.run.concrete(method(self.run, self.vm, "stack_size"))

    def stack(self):
        n = self.size()
        out = []
        if not isinstance(n, int):
            raise AnalysisBroken("stack size %r" % (n,))
        for _ in range(n):
            out.append(self.read(method(self.run, self.vm, "pop")))
        return out[::-1]

    def read(self, cv):
        return self.E.rd_type(self.run, self.run.field(cv, "type").v), self.run.concrete(self.run.field(cv, "int_value").v)


def same_term(run, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b or (a - b) % (1 << 128) == 0
    if repr(a) == repr(b):
        return True
    k = run.known(ops.binary("==", a, b, 128, True))
    return k is True


def same_stack(run, a, b):
    return len(a) == len(b) and all(x[0] == y[0] and same_term(run, x[1], y[1]) for x, y in zip(a, b))


def eq_known(run, a, b):
    """is a == b on this path (None: undetermined)"""
    if repr(a) == repr(b):
        return True
    return run.known(ops.binary("==", a, b, 64, False))


def err_code(m, val):
    return m.E.code(m.P.enum("bms::Execution_Error_Code"), m.run, m.run.field(val, "code").v)


def eval_code(m, val):
    return m.E.code(m.E.ec, m.run, m.run.field(val, "evaluation_error").v)


def comparison(m, val):
    o = m.run.field(val, "comparison_failure").v
    if not m.run.decide(o.has):
        return None
    c = m.run.opt_get(o).v
    f = {x["n"]: m.run.field(c, x["n"]).v for x in m.run.all_fields(c.rec)}
    return m.read(f["left"]), m.E.code(m.E.et, m.run, f["op"]), m.read(f["right"])


# ------------------------------------------------------------------------------------------------ single instructions
def single(ctx, E, I):
    P = ctx.p
    jumps = Sym("offset", 40, True)
    U8 = (UINT, 8)
    TYPES = [(BOOL, 0), (INT, 0), U8]

    def explore_case(key, body, n=3000):
        def entry(run):
            m = Machine(run, E, I)
            return m, body(run, m)
        for p in explore(P, entry, {}, {"unroll": 40}, n, ctx.stats):
            ctx.saw(p.run)
            if p.kind == "end" and p.why == "infeasible":
                continue
            if p.kind != "return":
                ctx.ok(False, key + ":crash", "the machine ends with %s (%s), under %s" % (p.kind, p.why or p.exc, explain(p.run)))
                continue
            m, bad = p.value
            ctx.count("paths of " + key.split(":")[0])
            ctx.ok(not bad, key + (":" + bad[0] if bad else ""), (bad[1] + ", under " + explain(p.run)) if bad else "",
                   sample=key)

    def expect_ok(run, m, st, stack, counter, have=None):
        if st[0] != "ok":
            return "error", "an error (%s) instead of success" % err_code(m, st[1])
        c = m.counter()
        if eq_known(run, c, counter) is not True:
            return "counter", "next instruction is %s instead of %s" % (c, counter)
        got = m.stack()
        if not same_stack(run, got, stack):
            return "stack", "operand stack is %s instead of %s" % (got, stack)
        return None

    def expect_err(run, m, st, code, ev=None):
        if st[0] != "err":
            return "no-error", "success instead of the error %s" % code
        c = err_code(m, st[1])
        if c != code:
            return "code", "error %s instead of %s" % (c, code)
        if ev is not None:
            e = eval_code(m, st[1])
            if e != ev:
                return "evaluation-code", "evaluation error %s instead of %s" % (e, ev)
        d = m.run.field(st[1], "debug_info").v
        if d.path != m.last_debug:
            return "origin", "the error does not name the failing instruction"
        return None

    def fill(m, types):
        vs = []
        for i, t in enumerate(types):
            cv, s = m.val(t, "s%d" % i)
            m.push(cv)
            vs.append((t, s))
        return vs

    mixes = [(), (U8,), ((INT, 0), (BOOL, 0)), (U8, (BOOL, 0), (INT, 0))]
    for types in mixes:
        n = len(types)
        tag = "with %d operand%s" % (n, "" if n == 1 else "s")

        def push(run, m, types=types):
            s = fill(m, types)
            cv, v = m.val(U8, "pushed")
            return expect_ok(run, m, m.step("Push", value=cv), s + [(U8, v)], add(m.c, 1))
        explore_case("Push " + tag, push)

        def pop(run, m, types=types):
            s = fill(m, types)
            st = m.step("Pop")
            return expect_ok(run, m, st, s[:-1], add(m.c, 1)) if s else expect_err(run, m, st, "pop")
        explore_case("Pop " + tag, pop)

        def load(run, m, types=types):
            fill(m, types)
            return expect_err(run, m, m.step("Load", source=Ptr(Cell(0, "never stored"))), "load_uninitialized")
        explore_case("Load of an uninitialised variable " + tag, load)

        def store(run, m, types=types):
            s = fill(m, types)
            st = m.step("Store", target=Ptr(Cell(0, "x")))
            return expect_ok(run, m, st, s[:-1], add(m.c, 1)) if s else expect_err(run, m, st, "pop")
        explore_case("Store " + tag, store)

        def jump(run, m, types=types):
            s = fill(m, types)
            t = add(add(m.c, jumps), 1)
            inside = run.decide(ops.binary(">=", t, 0, 64, True)) and run.decide(ops.binary("<", t, m.L, 64, True))
            self_ = inside and run.decide(ops.binary("==", t, m.c, 64, True))
            st = m.step("Relative_Jump", offset=jumps)
            if not inside:
                return expect_err(run, m, st, "jump_out_of_program")
            if self_:
                return expect_err(run, m, st, "infinite_loop")
            return expect_ok(run, m, st, s, t)
        explore_case("Relative_Jump " + tag, jump)

        for exp in (0, 1):
            def jump_if(run, m, types=types, exp=exp):
                s = fill(m, types)
                t = add(add(m.c, jumps), 1)
                taken = False
                if s and s[-1][0][0] == BOOL:
                    taken = run.decide(ops.binary("==", s[-1][1], exp, 128, True))
                inside = self_ = None
                if taken:
                    inside = run.decide(ops.binary(">=", t, 0, 64, True)) and run.decide(ops.binary("<", t, m.L, 64, True))
                    self_ = inside and run.decide(ops.binary("==", t, m.c, 64, True))
                st = m.step("Relative_Jump_If", offset=jumps, expected=exp)
                if not s:
                    return expect_err(run, m, st, "pop")
                if s[-1][0][0] != BOOL:
                    return expect_err(run, m, st, "jump_if_not_bool")
                if not taken:
                    return expect_ok(run, m, st, s[:-1], add(m.c, 1))
                if not inside:
                    return expect_err(run, m, st, "jump_out_of_program")
                if self_:
                    return expect_err(run, m, st, "infinite_loop")
                return expect_ok(run, m, st, s[:-1], t)
            explore_case("Relative_Jump_If(%d) %s" % (exp, tag), jump_if)
            if types and types[-1][0] != BOOL:
                def jump_ifb(run, m, types=types[:-1] + ((BOOL, 0),), exp=exp):
                    return jump_if(run, m, types, exp)
                explore_case("Relative_Jump_If(%d) on Bool %s" % (exp, tag), jump_ifb)

        def ret(run, m, types=types):
            fill(m, types)
            return expect_err(run, m, m.step("Return"), "pop_call")
        explore_case("Return outside of calls " + tag, ret)

        def call(run, m, types=types):
            s = fill(m, types)
            a = Sym("address", 64)
            inside = run.decide(ops.binary("<", a, m.L, 64, False))
            self_ = inside and run.decide(ops.binary("==", a, m.c, 64, False))
            st = m.step("Call", address=a)
            if not inside:
                return expect_err(run, m, st, "call_out_of_program")
            if self_:
                return expect_err(run, m, st, "infinite_loop")
            return expect_ok(run, m, st, s, a)
        explore_case("Call " + tag, call)

        def call_ret(run, m, types=types):
            s = fill(m, types)
            a = Sym("address", 40)
            if not run.decide(ops.binary("<", a, m.L, 64, False)) or run.decide(ops.binary("==", a, m.c, 64, False)) or \
                    run.decide(ops.binary("==", a, add(m.c, 1), 64, False)):
                raise PathEnd("infeasible")
            st = m.step("Call", address=a)
            if st[0] != "ok":
                return "error", "call fails"
            st = m.step("Return")
            return expect_ok(run, m, st, s, add(m.c, 1))
        explore_case("Call and Return " + tag, call_ret)

        for k in ("Break", "Continue"):
            def sym(run, m, types=types, k=k):
                fill(m, types)
                return expect_err(run, m, m.step(k), "symbolic_jump")
            explore_case("%s %s" % (k, tag), sym)

        def past(run, m, types=types):
            fill(m, types)
            m.vm.v.fields[m.cf].v = m.L
            st = m.cycle()
            if st[0] != "err" or err_code(m, st[1]) != "jump_out_of_program":
                return "no-error", "running past the last instruction is not reported"
            return None
        explore_case("running past the last instruction " + tag, past)

    # ---- operators: the stack effect with the value the evaluator gives
    def direct(run, f, args):
        r = run.call_fn(f, None, [Cell(a) for a in args], by_decl=True)
        return result_state(run, r.v if isinstance(r, Cell) else r)

    below = ((INT, 0),)
    for op in sorted(UNARY):
        for t in TYPES:
            for b in ((), below):
                def un(run, m, op=op, t=t, b=b):
                    s = fill(m, b)
                    cv, v = m.val(t, "x")
                    m.push(cv)
                    want = direct(run, E.ev_un, [E.et[op], cv])
                    st = m.step("Unary_Operate", op=E.et[op])
                    if want[0] == "err":
                        return expect_err(run, m, st, "evaluation", E.code(E.ec, run, want[1]))
                    return expect_ok(run, m, st, s + [m.read(want[1])], add(m.c, 1))
                if t == ((BOOL, 0) if op == "logical_not" else t) and not (op == "bitwise_not" and t[0] != UINT) and not (op != "logical_not" and t[0] == BOOL):
                    explore_case("Unary_Operate %s on %s, %d below" % (op, E_show(t), len(b)), un)

    def un0(run, m):
        return expect_err(run, m, m.step("Unary_Operate", op=E.et["unary_minus"]), "pop")
    explore_case("Unary_Operate with 0 operands", un0)
    for n in (0, 1):
        def bi0(run, m, n=n):
            fill(m, (U8,) * n)
            return expect_err(run, m, m.step("Binary_Operate", op=E.et["binary_plus"]), "pop")
        explore_case("Binary_Operate with %d operands" % n, bi0)

    def cv0(run, m):
        return expect_err(run, m, m.step("Convert", type=E.mk_type(run, U8)), "pop")
    explore_case("Convert with 0 operands", cv0)

    for op in sorted(BINARY):
        pairs = [((BOOL, 0), (BOOL, 0))] if op.startswith("logical") else [(U8, U8)] if op.startswith("bitwise") else [(U8, U8), ((INT, 0), U8)]
        for lt, rt in pairs:
            for b in ((), below):
                for nxt in ("Pop", "assert"):
                    if nxt == "assert" and (op not in CMP or b):
                        continue

                    def bi(run, m, op=op, lt=lt, rt=rt, b=b, nxt=nxt):
                        s = fill(m, b)
                        l, lv = m.val(lt, "l")
                        m.push(l)
                        r, rv = m.val(rt, "r")
                        m.push(r)
                        want = direct(run, E.ev_bin, [l, E.et[op], r])
                        if nxt == "assert":
                            m.put(add(m.c, 1), m.ins("Builtin_Call", function=E.bf["assert"]))
                        else:
                            m.put(add(m.c, 1), m.ins("Pop"))
                        # the following instruction may lie outside of the program
                        st = m.step("Binary_Operate", op=E.et[op])
                        if want[0] == "err":
                            return expect_err(run, m, st, "evaluation", E.code(E.ec, run, want[1]))
                        return expect_ok(run, m, st, s + [m.read(want[1])], add(m.c, 1))
                    explore_case("Binary_Operate %s on %s and %s, %d below, before %s" % (op, E_show(lt), E_show(rt), len(b), nxt), bi)

    for frm, to in itertools.product(TYPES + [(UINT, 16)], TYPES + [(UINT, 16)]):
        def cvt(run, m, frm=frm, to=to):
            s = fill(m, below)
            cv, v = m.val(frm, "x")
            m.push(cv)
            ty = E.mk_type(run, to)
            want = direct(run, E.ev_conv, [cv, ty])
            st = m.step("Convert", type=ty)
            if want[0] == "err":
                return expect_err(run, m, st, "evaluation", E.code(E.ec, run, want[1]))
            return expect_ok(run, m, st, s + [m.read(want[1])], add(m.c, 1))
        explore_case("Convert %s to %s" % (E_show(frm), E_show(to)), cvt)

    # ---- assert
    for b in ((), below):
        def asr(run, m, b=b):
            s = fill(m, b)
            cv, v = m.val((BOOL, 0), "x")
            m.push(cv)
            st = m.step("Builtin_Call", function=E.bf["assert"])
            if run.decide(ops.binary("==", v, 0, 128, True)):
                e = expect_err(run, m, st, "evaluation", "assertion_fail")
                return e or (("comparison", "a comparison is reported although there was none") if comparison(m, st[1]) else None)
            return expect_ok(run, m, st, s + [((VOID, 0), 0)], add(m.c, 1))
        explore_case("Builtin_Call assert, %d below" % len(b), asr)

    def as0(run, m):
        return expect_err(run, m, m.step("Builtin_Call", function=E.bf["assert"]), "pop")
    explore_case("Builtin_Call assert with 0 operands", as0)

    # ---- comparison reported with a failing assertion
    def room(run, m, n):
        if not run.decide(ops.binary("<", add(m.c, n), m.L, 64, False)):
            raise PathEnd("infeasible")

    def compare(run, m, op, l, r, then_assert=True):
        m.push(l)
        m.push(r)
        c = m.counter()
        if then_assert:
            m.put(add(c, 1), m.ins("Builtin_Call", function=E.bf["assert"]))
        else:
            m.put(add(c, 1), m.ins("Pop"))
        return m.step("Binary_Operate", op=E.et[op])

    def do_assert(m):
        return m.step("Builtin_Call", function=E.bf["assert"])

    for op in CMP:
        def cmp1(run, m, op=op):
            room(run, m, 1)
            l, lv = m.val(U8, "l")
            r, rv = m.val(U8, "r")
            if compare(run, m, op, l, r)[0] != "ok":
                return "error", "comparison fails"
            st = do_assert(m)
            if st[0] == "ok":
                return None
            cf = comparison(m, st[1])
            if cf is None or cf[1] != op or not same_term(run, cf[0][1], lv) or not same_term(run, cf[2][1], rv) or cf[0][0] != U8 or cf[2][0] != U8:
                return "comparison", "the failing assertion of l %s r reports %s" % (op, cf)
            return None
        explore_case("assertion of %s" % op, cmp1)

    def cmp2(run, m):
        room(run, m, 1)
        l, lv = m.val(U8, "l")
        r, rv = m.val(U8, "r")
        compare(run, m, "equals", l, r)
        if do_assert(m)[0] != "ok":
            raise PathEnd("infeasible")
        cv = m.val((BOOL, 0), "x")[0]
        m.push(cv)
        st = do_assert(m)
        if st[0] == "err" and comparison(m, st[1]) is not None:
            return "comparison", "a failing assertion reports the comparison of an earlier assertion"
        return None
    explore_case("assertion after a passed assertion", cmp2)

    def cmp3(run, m):
        room(run, m, 5)
        a, av = m.val(U8, "a")
        b, bv = m.val(U8, "b")
        compare(run, m, "less_than", a, b)
        if do_assert(m)[0] != "ok":
            raise PathEnd("infeasible")
        l, lv = m.val(U8, "l")
        r, rv = m.val(U8, "r")
        compare(run, m, "equals", l, r)
        st = do_assert(m)
        if st[0] == "err":
            cf = comparison(m, st[1])
            if cf is None or cf[1] != "equals" or not same_term(run, cf[0][1], lv) or not same_term(run, cf[2][1], rv):
                return "comparison", "the second assertion reports %s" % (cf,)
        return None
    explore_case("second of two assertions", cmp3)

    def cmp4(run, m):
        room(run, m, 5)
        l, lv = m.val(U8, "l")
        r, rv = m.val(U8, "r")
        compare(run, m, "equals", l, r, then_assert=False)
        m.step("Pop")
        m.push(m.val((BOOL, 0), "x")[0])
        st = do_assert(m)
        if st[0] == "err" and comparison(m, st[1]) is not None:
            return "comparison", "a failing assertion reports a comparison which is not its operand"
        return None
    explore_case("assertion of a value which is no comparison", cmp4)

    def rst(run, m):
        room(run, m, 5)
        l, lv = m.val(U8, "l")
        r, rv = m.val(U8, "r")
        m.push(m.val(U8, "z")[0])
        m.step("Store", target=Ptr(Cell(0, "x")))
        compare(run, m, "equals", l, r)
        do_assert(m)
        method(run, m.vm, "reset")
        if run.concrete(m.counter()) != 0 or m.size() != 0:
            return "state", "counter or operands survive a reset"
        m.at(m.c)
        m.push(m.val((BOOL, 0), "x")[0])
        st = do_assert(m)
        if st[0] == "err" and comparison(m, st[1]) is not None:
            return "comparison", "a comparison survives a reset"
        return None
    explore_case("reset", rst)


# ------------------------------------------------------------------------------------------------ histories of frames
def histories(ctx, E, I):
    P = ctx.p
    depth = 6 if ctx.thorough else 5
    opsl = [("S", 0), ("S", 1), ("L", 0), ("L", 1), ("C",), ("R",)]

    def useful(h):
        # a history which ends in an observation, each variable introduced in order
        if h[-1][0] != "L":
            return False
        seen = []
        for o in h:
            if o[0] in "SL" and o[1] not in seen:
                seen.append(o[1])
        if seen and seen[0] != 0:
            return False
        d = 0
        for o in h:
            d += {"C": 1, "R": -1}.get(o[0], 0)
            if d < 0:
                return False
        return True

    hs = [h for n in range(1, depth + 1) for h in itertools.product(opsl, repeat=n) if useful(h)]
    # only histories whose observations before the last succeed matter
    for h in hs:
        frames, cnt, bad, exp = [{}], 0, False, None
        for i, o in enumerate(h):
            if o[0] == "S":
                frames[-1][o[1]] = "v%d" % i
            elif o[0] == "L":
                exp = frames[-1].get(o[1])
                if exp is None and i != len(h) - 1:
                    bad = True
                    break
            elif o[0] == "C":
                frames.append({})
            else:
                frames.pop()
        if bad or any(o[0] == "L" for o in h[:-1]):
            continue
        key = "variables: " + " ".join({"S": "store-%s", "L": "load-%s", "C": "call", "R": "return"}[o[0]] % (("ab"[o[1]],) if len(o) > 1 else ()) for o in h)

        def entry(run, h=h, exp=exp):
            m = Machine(run, E, I)
            names = [Ptr(Cell(0, "a")), Ptr(Cell(0, "b"))]
            vals = {}
            room = add(m.c, 40)
            run.facts.assume(ops.binary("<", room, m.L, 64, False), True)
            rets = []
            for i, o in enumerate(h):
                if o[0] == "S":
                    cv, v = m.val((INT, 0), "v%d" % i)
                    vals["v%d" % i] = v
                    m.push(cv)
                    st = m.step("Store", target=names[o[1]])
                elif o[0] == "L":
                    st = m.step("Load", source=names[o[1]])
                elif o[0] == "C":
                    rets.append(add(m.counter(), 1))
                    st = m.step("Call", address=add(m.counter(), 5))
                else:
                    st = m.step("Return")
                    if st[0] == "ok" and eq_known(run, m.counter(), rets.pop()) is not True:
                        return "the return goes to the wrong place"
                if i < len(h) - 1 and st[0] != "ok":
                    return "step %d fails with %s" % (i + 1, err_code(m, st[1]))
            if exp is None:
                return None if st[0] == "err" and err_code(m, st[1]) == "load_uninitialized" else "an uninitialised variable can be read"
            if st[0] != "ok":
                return "the variable cannot be read (%s)" % err_code(m, st[1])
            s = m.stack()
            if not s or not same_term(run, s[-1][1], vals[exp]):
                return "the variable has value %s instead of %s" % (s and s[-1], vals[exp])
            return None
        for p in explore(P, entry, {}, {"unroll": 40}, 200, ctx.stats):
            ctx.saw(p.run)
            if p.kind == "end" and p.why == "infeasible":
                continue
            ctx.count("histories")
            ctx.ok(p.kind == "return" and p.value is None, key, "%s" % (p.value if p.kind == "return" else (p.why or p.exc),))


def check(ctx):
    E = Env(ctx.p)
    I = Instructions(ctx.p)
    ctx.rule("one cycle in every machine state (symbolic program size, counter, jump distance, address and operand values; 0-3 operands): the effect on operands, "
             "next instruction and error code equals the documented effect of the instruction")
    ctx.rule("every history of stores, loads, calls and returns up to a bound: a variable has the value stored last in the same call, and none before")
    single(ctx, E, I)
    histories(ctx, E, I)
    ctx.need("histories", 100)
    if len(ctx.counts) < 60:
        raise AnalysisBroken("only %d instruction cases" % len(ctx.counts))
