"""P20: what a satisfiability encoding says, compared with what the formula means.

For concrete formula trees the encoders are constant-propagated to the text they return; the text is read as SMT-LIB and its
assertion evaluated over all traces at once (a Boolean is the set of traces it holds on, as a bit mask)."""
from __future__ import annotations
from .. import dd
from ..dd import C, T, leaf
from .compiler import interp, project, where_of
from .scen import WALKS, enum, var
from .typing import TS

ENC = {"uflia": "to_uflia_smtlib2", "qf_uflia": "to_qf_uflia_smtlib2", "qf_bv": "to_qf_bv_smtlib2"}
LOGIC = ("LOGICAL_AND", "LOGICAL_OR", "LOGICAL_IMPLIES", "LOGICAL_EQUIV", "LOGICAL_NEGATE")
TEMP = ("GLOBAL", "FUTURE", "UNTIL", "RELEASE")
ARITH = ("ARITHMETIC_ADD", "ARITHMETIC_SUBTRACT", "ARITHMETIC_MULTIPLY", "ARITHMETIC_DIVIDE", "ARITHMETIC_MODULO", "ARITHMETIC_NEGATE", "MIN", "MAX")
REL = ("EQUAL", "NOT_EQUAL", "GREATER_THAN", "GREATER_THAN_OR_EQUAL", "LESS_THAN", "LESS_THAN_OR_EQUAL")


# ---------------------------------------------------------------- formulas
# ("s", name) bool signal, ("i", name) integer signal, ("c", value), ("atom", x), (OPERATOR, x, ...),
# (TEMPORAL, lb, ub, x, ...); a bound is a number, ("sv", name), ("M",) or an arithmetic tree over them
def kids(t):
    k = t[0]
    if k in ("s", "i", "c", "sv", "M", "f", "v"):
        return ()
    return t[3:] if k in TEMP else t[1:]


def wpd(t):
    return max([wpd(c) for c in kids(t)], default=0) + (t[2] if t[0] in TEMP and isinstance(t[2], int) else 0)


def is_int(t):
    return t[0] in ("i", "sv", "M") or t[0] == "v" or t[0] in ARITH or t[0] == "c" and not isinstance(t[1], bool)


def walk(t, seen=None):
    for c in kids(t):
        yield from walk(c)
    if t[0] in TEMP:
        for b in t[1:3]:
            if not isinstance(b, int):
                yield from walk(b)
    yield t


def show(t):
    k = t[0]
    if k in ("s", "i", "sv", "f", "v"):
        return t[1]
    if k == "c":
        return str(t[1]).lower() if isinstance(t[1], bool) else str(t[1])
    if k == "M":
        return "M"
    if k in TEMP:
        b = ",".join(str(x) if isinstance(x, int) else show(x) for x in t[1:3])
        return f"{k}[{b}](" + ", ".join(show(c) for c in t[3:]) + ")"
    return f"{k}(" + ", ".join(show(c) for c in t[1:]) + ")"


class Space:
    """All traces of the first W positions: one bit per Boolean signal and position, a small domain per integer signal and position."""

    def __init__(self, bools, ints, W, domain=(0, 1, 2, 5), extra=1):
        self.W, self.vars, self.n = W, {}, 1
        cells = []
        for s in bools:
            cells += [(s, p, (False, True)) for p in range(W + extra)]
        for s in ints:
            cells += [(s, p, domain) for p in range(W + extra)]
        for c in cells:
            self.n *= len(c[2])
        if self.n > 1 << 20:
            raise ValueError("too many traces")
        self.all = (1 << self.n) - 1
        rep = 1
        for s, p, dom in cells:
            # value j on blocks of `rep` traces, period rep*len(dom)
            period = rep * len(dom)
            out = {}
            for j, v in enumerate(dom):
                block = ((1 << rep) - 1) << (rep * j)
                width, m = period, block
                while width < self.n:
                    m |= m << width
                    width *= 2
                m &= self.all
                out[v] = m
            # the doubling above needs n to be a multiple of period times a power of two
            if sum(bin(m).count("1") for m in out.values()) != self.n:
                out = {v: 0 for v in dom}
                for x in range(self.n):
                    out[dom[(x // rep) % len(dom)]] |= 1 << x
            self.vars[s, p] = out[True] if dom == (False, True) else out
            rep = period
        self.inner = W
        self.extra = extra

    def at(self, s, p):
        """Value at a position; every position outside the trace shares one unknown value."""
        q = p if 0 <= p < self.W else self.W if self.extra else None
        if q is None:
            raise ValueError("outside")
        return self.vars[s, q]

    def describe(self, bit):
        """The trace with the given number."""
        out = {}
        for (s, p), v in self.vars.items():
            if p < self.W:
                x = (v >> bit & 1) if not isinstance(v, dict) else next(k for k, m in v.items() if m >> bit & 1)
                out.setdefault(s, []).append(str(x))
        return "; ".join(f"{s} = {' '.join(v)}" for s, v in out.items()) or "the only trace"


def imap(space, f, *xs):
    """Apply f to integer-valued cells {value: traces}."""
    out = {}

    def go(i, vals, mask):
        if not mask:
            return
        if i == len(xs):
            v = f(*vals)
            out[v] = out.get(v, 0) | mask
            return
        for v, m in xs[i].items():
            go(i + 1, vals + [v], mask & m)
    go(0, [], space.all)
    return out


def tdiv(a, b):
    return None if b == 0 or a is None or a < 0 or b < 0 else a // b


def tmod(a, b):
    return None if b == 0 or a is None or a < 0 or b < 0 else a % b


def lift(f):
    return lambda *a: None if None in a else f(*a)


INTOP = {"ARITHMETIC_ADD": lift(lambda a, b: a + b), "ARITHMETIC_SUBTRACT": lift(lambda a, *b: a - b[0] if b else -a), "ARITHMETIC_MULTIPLY": lift(lambda a, b: a * b),
         "ARITHMETIC_DIVIDE": tdiv, "ARITHMETIC_MODULO": tmod, "ARITHMETIC_NEGATE": lift(lambda a: -a), "MIN": lift(min), "MAX": lift(max)}
RELOP = {"EQUAL": lambda a, b: a == b, "NOT_EQUAL": lambda a, b: a != b, "GREATER_THAN": lambda a, b: a > b, "GREATER_THAN_OR_EQUAL": lambda a, b: a >= b,
         "LESS_THAN": lambda a, b: a < b, "LESS_THAN_OR_EQUAL": lambda a, b: a <= b}


class Meaning:
    """The formula over a trace of the given length: positions from `length` on do not exist (None: the trace is long enough)."""

    def __init__(self, space, length=None, env=None):
        self.s, self.len, self.env, self.memo = space, length, env or {}, {}
        self.undefined = 0

    def bound(self, b):
        if isinstance(b, int):
            return b
        v = self.num(b, 0)
        (x,) = v
        return x

    def num(self, t, k):
        key = (t, k, "n")
        if key not in self.memo:
            op = t[0]
            if op == "c":
                r = {t[1]: self.s.all}
            elif op in ("i", "v"):
                r = self.s.at(t[1], k)
            elif op in ("sv", "M"):
                r = {self.env[t[1] if op == "sv" else "M"]: self.s.all}
            else:
                r = imap(self.s, INTOP[op], *[self.num(c, k) for c in t[1:]])
                self.undefined |= r.get(None, 0)
            self.memo[key] = r
        return self.memo[key]

    def at(self, t, k):
        key = (t, k)
        if key not in self.memo:
            self.memo[key] = self.at_(t, k)
        return self.memo[key]

    def ended(self, k):
        return self.len is not None and k >= self.len

    def at_(self, t, k):
        A, op = self.s.all, t[0]
        if op in TEMP:
            lb, ub = self.bound(t[1]), self.bound(t[2])
            if lb > ub:
                return None
            ps = range(k + lb, k + ub + 1)
            if op == "GLOBAL":
                if self.ended(k):
                    return 0
                r = A
                for i in ps:
                    if not self.ended(i):
                        r &= self.at(t[3], i)
                return r
            if op == "FUTURE":
                if self.ended(k + lb):
                    return 0
                r = 0
                for i in ps:
                    if not self.ended(i):
                        r |= self.at(t[3], i)
                return r
            if self.ended(k + lb) and op == "UNTIL":
                return 0
            if op == "UNTIL":
                r, pre = 0, A
                for i in ps:
                    if self.ended(i):
                        break
                    r |= pre & self.at(t[4], i)
                    pre &= self.at(t[3], i)
                return r
            r, rel = A, 0                      # RELEASE
            for i in ps:
                if self.ended(i):
                    break
                r &= rel | self.at(t[4], i)
                rel |= self.at(t[3], i)
            return r
        if self.ended(k):
            return 0
        if op in ("s", "f"):
            return self.s.at(t[1], k)
        if op == "c":
            return A if t[1] else 0
        if op == "atom":
            return self.at(t[1], k)
        if op in REL:
            a, b = t[1:]
            if is_int(a):
                x, y = self.num(a, k), self.num(b, k)
                return imap(self.s, lambda u, v: None if u is None or v is None else RELOP[op](u, v), x, y).get(True, 0)
            e = A & ~(self.at(a, k) ^ self.at(b, k))
            return e if op == "EQUAL" else A & ~e
        v = [self.at(c, k) for c in t[1:]]
        if op == "LOGICAL_NEGATE":
            return A & ~v[0]
        if op == "LOGICAL_AND":
            r = A
            for x in v:
                r &= x
            return r
        if op == "LOGICAL_OR":
            r = 0
            for x in v:
                r |= x
            return r
        if op == "LOGICAL_IMPLIES":
            return A & ~v[0] | v[1]
        if op == "LOGICAL_EQUIV":
            return A & ~(v[0] ^ v[1])
        raise ValueError(op)


# ---------------------------------------------------------------- the encoder's text
def identity(ip, a, st):
    return a[0]


def postorder(ip, a, st):
    def below(o):
        v = ip.val(ip.getattr(leaf(o), "children", st, ip._fr), st)
        if v.leaf is None or v.leaf.op not in ("list", "tuple"):
            raise ValueError("children not known")
        return v.leaf.args
    r = ip.val(a[0], st)
    if r.leaf is None:
        raise ValueError("start not known")
    roots = list(r.leaf.args) if r.leaf.op in ("list", "tuple") else [r.leaf]
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        for c in below(n):
            go(c)
        out.append(n)
    for x in roots[::-1]:
        go(x)
    return leaf(T("list", *out))


class Builder:
    def __init__(self, share=True):
        self.s, self.n, self.made, self.names = TS("smt"), 0, {}, {}
        self.share = share

    def fresh(self):
        self.n += 1
        return f"n{self.n}"

    def build(self, t):
        if self.share and t in self.made:
            return self.made[t]
        s, k, nm = self.s, t[0], self.fresh()
        ty = "IntType" if is_int(t) else "FloatType" if k == "f" else "BoolType"
        sub = [self.build(c) for c in kids(t)]
        a = dict(type=s.typ(ty, f"ty_{nm}"), loc=var("loc"), children=sub, wpd=wpd(t), bpd=0, parents=set())
        if k in ("s", "i", "f", "v"):
            o = s.obj("Variable" if k == "v" else "Signal", nm, symbol=t[1], **a)
        elif k == "c":
            o = s.obj("Constant", nm, value=t[1], symbol=str(t[1]), **a)
        elif k == "sv":
            o = s.obj("SymbolicIntervalVariable", nm, symbol=t[1], **a)
        elif k == "M":
            o = s.obj("MissionTime", nm, symbol="M", **a)
        elif k == "atom":
            o = s.obj("Atomic", nm, symbol="", **a)
        elif k in TEMP:
            sym = not isinstance(t[1], int) or not isinstance(t[2], int)
            b = [x if isinstance(x, int) and not sym else self.build(("c", x) if isinstance(x, int) else x) for x in t[1:3]]
            iv = s.obj("SymbolicInterval" if sym else "ConcreteInterval", nm + "iv", lb=b[0], ub=b[1])
            o = s.obj("SymbolicTemporalOperator" if sym else "TemporalOperator", nm, operator=self.kind(k), symbol=k, interval=iv, **a)
        else:
            o = s.obj("Operator", nm, operator=self.kind(k), symbol=k, **a)
        for c in sub:
            for i, (key, v) in enumerate(s.fields):
                if key == ("at", c, "parents"):
                    s.fields[i] = (key, v | {o})
        self.names[o] = f"<{show(t)}>"
        self.made[t] = o
        return o

    def kind(self, k):
        return enum("OperatorKind", project().enum_canon("OperatorKind", k))


def signals(t):
    out = {}
    for x in walk(t):
        if x[0] in ("s", "i", "f", "v"):
            out[x[1]] = x[0]
    return out


def syms(t):
    return sorted({x[1] if x[0] == "sv" else "M" for x in walk(t) if x[0] in ("sv", "M")})


def text_of(theory, tree, strict, constraints=()):
    """(text, None) the encoder returns; text is a string, None (refused), or raises when not one constant."""
    b = Builder()
    e = b.build(tree)
    s = b.s
    ctx = s.obj("Context", "context")
    sig = signals(tree)
    kinds = {"s": "BoolType", "i": "IntType", "f": "FloatType", "v": "IntType"}
    cons = [b.build(c) for c in constraints]
    # plain tables: every signal with its type
    s.set(ctx, signals={C(n): s.typ(kinds[k], f"st_{n}") for n, k in sig.items() if k != "v"}, variables={C(n): s.typ("IntType", f"st_{n}") for n, k in sig.items() if k == "v"},
          bounds=[b.build(("sv", n)) for n in syms(tree) if n != "M"], constraints=cons, definitions={})
    s.arg("start", e)
    s.arg("context", ctx)
    s.arg("strict", strict)
    s.model("cpt.Expression.deepcopy", identity)
    s.model("log.debug", lambda ip, a, st: dd.NONE)
    kw = s.kw()
    models = {k: v for k, v in kw["models"].items() if k not in WALKS}
    ip = interp((), 60, models)
    ip.eqmods = ("types", "cpt")
    ip.models["cpt.postorder"] = postorder
    ip.texts = b.names                    # an expression prints as the formula it is
    from ..pyfront import St
    st = St()
    args = kw["setup"](ip, st)
    old, dd.GROUND = dd.GROUND, True
    try:
        r, s2 = ip.run("sat", ENC[theory], args=args, st=st)
        v = ip.val(r, s2)
    finally:
        dd.GROUND = old
    ls = dd.leaves(v)
    if len(ls) != 1 or ls[0].op != "c":
        raise ValueError("text not derived: " + " | ".join(dd.show(x)[:60] for x in ls[:3]))
    return ls[0].args[0]


# ---------------------------------------------------------------- reading SMT-LIB
class Bad(Exception):
    """The text is not a well-formed, well-sorted script."""


def read(text):
    out, stack, i, n = [], [], 0, len(text)
    cur = out
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif c == "(":
            stack.append(cur)
            cur = []
            i += 1
        elif c == ")":
            if not stack:
                raise Bad("unbalanced parentheses")
            stack[-1].append(cur)
            cur = stack.pop()
            i += 1
        elif c in "|\"":
            j = text.find(c, i + 1)
            if j < 0:
                raise Bad("unterminated quote")
            cur.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "();|\"":
                j += 1
            cur.append(text[i:j])
            i = j
    if stack:
        raise Bad("unbalanced parentheses")
    return out


class Script:
    def __init__(self, text):
        self.logic, self.decls, self.defs, self.asserts, self.checks = None, {}, {}, [], 0
        self.quantified = self.nonlinear = False
        order = []
        for cmd in read(text):
            if not isinstance(cmd, list) or not cmd:
                raise Bad(f"stray {cmd!r} between the commands")
            k = cmd[0]
            if k == "set-logic":
                self.logic = cmd[1]
            elif k == "declare-fun" and len(cmd) == 4:
                self.fresh(cmd[1])
                self.decls[cmd[1]] = ([self.sort(s) for s in cmd[2]], self.sort(cmd[3]))
            elif k == "declare-const" and len(cmd) == 3:
                self.fresh(cmd[1])
                self.decls[cmd[1]] = ([], self.sort(cmd[2]))
            elif k == "define-fun" and len(cmd) == 5:
                self.fresh(cmd[1])
                ps = [(p[0], self.sort(p[1])) for p in cmd[2]]
                res = self.sort(cmd[3])
                self.sorted(cmd[4], dict(ps), res)
                self.defs[cmd[1]] = (ps, res, cmd[4])
            elif k == "assert" and len(cmd) == 2:
                self.sorted(cmd[1], {}, "Bool")
                self.asserts.append(cmd[1])
                if self.checks:
                    raise Bad("an assertion follows the question")
            elif k == "check-sat":
                self.checks += 1
            elif k in ("set-info", "set-option", "exit", "get-model"):
                pass
            else:
                raise Bad(f"malformed command {k}")
            order.append(k)
        if self.checks != 1:
            raise Bad(f"the question is asked {self.checks} times")
        lg = self.logic or ""
        if not lg:
            raise Bad("no logic is set")
        if lg != "ALL":
            if lg.startswith("QF_") and self.quantified:
                raise Bad(f"quantifiers in {lg}")
            if "BV" not in lg and any(isinstance(r, tuple) for _, r in self.decls.values()):
                raise Bad(f"bit vectors in {lg}")
            if self.nonlinear and "N" not in lg.replace("QF_", ""):
                raise Bad(f"nonlinear arithmetic in {lg}")

    def fresh(self, n):
        if n in self.decls or n in self.defs:
            raise Bad(f"{n} is introduced twice")

    def sort(self, s):
        if s in ("Bool", "Int", "Real"):
            return s
        if isinstance(s, list) and len(s) == 3 and s[:2] == ["_", "BitVec"]:
            return ("bv", int(s[2]))
        raise Bad(f"unknown sort {s}")

    def sorted(self, e, env, want):
        got = self.sort_of(e, env)
        if got != want:
            raise Bad(f"a term of sort {got} where {want} is needed: {str(e)[:80]}")

    def sort_of(self, e, env):
        if isinstance(e, str):
            if e in env:
                return env[e]
            if e in ("true", "false"):
                return "Bool"
            if e.lstrip("-").isdigit():
                if e.startswith("-"):
                    raise Bad(f"{e} is not a numeral")
                return "Int"
            if e in self.decls and not self.decls[e][0]:
                return self.decls[e][1]
            if e in self.defs and not self.defs[e][0]:
                return self.defs[e][1]
            raise Bad(f"{e} is not declared")
        h = e[0] if e else None
        if isinstance(h, list):
            if len(h) == 4 and h[:2] == ["_", "extract"]:
                s = self.sort_of(e[1], env)
                if not isinstance(s, tuple) or not s[1] > int(h[2]) >= int(h[3]) >= 0:
                    raise Bad(f"bits {h[2]} to {h[3]} of a term of sort {s}")
                return ("bv", int(h[2]) - int(h[3]) + 1)
            raise Bad(f"unknown operator {h}")
        if h == "_" and len(e) == 3 and e[1].startswith("bv"):
            if int(e[1][2:]) >> int(e[2]):
                raise Bad(f"{e[1]} does not fit in {e[2]} bits")
            return ("bv", int(e[2]))
        if h in ("forall", "exists"):
            self.quantified = True
            inner = dict(env)
            for n, s in e[1]:
                inner[n] = self.sort(s)
            self.sorted(e[2], inner, "Bool")
            return "Bool"
        xs = [self.sort_of(x, env) for x in e[1:]]

        def need(*want):
            if list(want) != xs:
                raise Bad(f"{h} is applied to {xs}, needs {list(want)}")
        if h in ("and", "or", "=>", "xor"):
            if not xs or h in ("=>", "xor") and len(xs) < 2:
                raise Bad(f"{h} of {len(xs)} terms")
            need(*["Bool"] * len(xs))
            return "Bool"
        if h == "not":
            need("Bool")
            return "Bool"
        if h in ("=", "distinct"):
            if len(xs) < 2 or len(set(xs)) != 1:
                raise Bad(f"{h} of {xs}")
            return "Bool"
        if h == "ite":
            if len(xs) != 3 or xs[0] != "Bool" or xs[1] != xs[2]:
                raise Bad(f"ite of {xs}")
            return xs[1]
        if h in ("<", "<=", ">", ">="):
            need("Int", "Int")
            return "Bool"
        if h in ("+", "*", "div", "mod", "-"):
            if not xs or h not in ("-",) and len(xs) < 2:
                raise Bad(f"{h} of {len(xs)} terms")
            need(*["Int"] * len(xs))
            if h in ("*", "div", "mod") and sum(not self.number(x) for x in e[1:]) > 1:
                self.nonlinear = True
            return "Int"
        if h in ("bvand", "bvor", "bvxor", "bvxnor", "bvshl", "bvlshr", "bvadd", "bvsub", "bvmul"):
            if len(xs) < 2 or len(set(xs)) != 1 or not isinstance(xs[0], tuple):
                raise Bad(f"{h} of {xs}")
            return xs[0]
        if h in ("bvnot", "bvneg"):
            if len(xs) != 1 or not isinstance(xs[0], tuple):
                raise Bad(f"{h} of {xs}")
            return xs[0]
        if h in ("bvugt", "bvuge", "bvult", "bvule"):
            if len(xs) != 2 or xs[0] != xs[1] or not isinstance(xs[0], tuple):
                raise Bad(f"{h} of {xs}")
            return "Bool"
        if h in self.decls:
            need(*self.decls[h][0])
            return self.decls[h][1]
        if h in self.defs:
            need(*[s for _, s in self.defs[h][0]])
            return self.defs[h][1]
        raise Bad(f"{h} is not declared")

    def number(self, e):
        return isinstance(e, str) and e.isdigit() or isinstance(e, list) and e[:1] == ["-"] and all(self.number(x) for x in e[1:])


class Unclear(Exception):
    """The text uses something the evaluator does not decide."""


class Eval:
    """The script over all traces; `consts` gives the declared numbers, `owner` the signal a declared function stands for."""

    def __init__(self, script, space, consts, owner, window, bits=None):
        self.c, self.s, self.k, self.owner, self.memo, self.window, self.bits = script, space, consts, owner, {}, window, bits

    def cell(self, v):
        return v if isinstance(v, dict) else {v: self.s.all}

    def ev(self, e, env):
        A = self.s.all
        if isinstance(e, str):
            if e in env:
                return env[e]
            if e == "true":
                return ("b", A)
            if e == "false":
                return ("b", 0)
            if e.isdigit():
                return ("n", int(e))
            return self.call(e, [])
        h = e[0]
        if isinstance(h, list):                                   # extract
            v = self.ev(e[1], env)[1]
            return ("v", v[int(h[3]):int(h[2]) + 1])
        if h == "_":
            n, w = int(e[1][2:]), int(e[2])
            return ("v", tuple(A if n >> i & 1 else 0 for i in range(w)))
        if h in ("forall", "exists"):
            r = A if h == "forall" else 0

            def go(i, inner):
                nonlocal r
                if i == len(e[1]):
                    b = self.ev(e[2], inner)[1]
                    r = r & b if h == "forall" else r | b
                    return
                if e[1][i][1] != "Int":
                    raise Unclear("quantified sort")
                for x in self.window:
                    go(i + 1, {**inner, e[1][i][0]: ("n", x)})
            go(0, env)
            return ("b", r)
        if h in self.c.defs or h in self.c.decls:
            return self.call(h, [self.ev(x, env) for x in e[1:]])
        if h == "=>" and len(e) == 3 or h in ("and", "or"):          # guards of the quantifiers: stop at the first that decides
            r = 0 if h == "or" else A
            for x in e[1:-1] if h == "=>" else e[1:]:
                b = self.ev(x, env)[1]
                r = r | b if h == "or" else r & b
                if r == (A if h == "or" else 0):
                    break
            if h != "=>":
                return ("b", r)
            return ("b", A if not r else A & ~r | self.ev(e[2], env)[1])
        xs = [self.ev(x, env) for x in e[1:]]
        vs = [x[1] for x in xs]
        if h == "not":
            return ("b", A & ~vs[0])
        if h == "xor":
            r = 0
            for v in vs:
                r ^= v
            return ("b", r)
        if h == "=>":
            r = vs[-1]
            for v in vs[-2::-1]:
                r = A & ~v | r
            return ("b", r)
        if h == "ite":
            c = vs[0]
            if xs[1][0] == "b":
                return ("b", c & vs[1] | A & ~c & vs[2])
            if xs[1][0] == "v":
                return ("v", tuple(c & x | A & ~c & y for x, y in zip(vs[1], vs[2])))
            if c in (0, A):
                return xs[1] if c else xs[2]
            out = {}
            for v, m in self.cell(vs[1]).items():
                out[v] = out.get(v, 0) | m & c
            for v, m in self.cell(vs[2]).items():
                out[v] = out.get(v, 0) | m & A & ~c
            return ("n", {v: m for v, m in out.items() if m})
        if h in ("=", "distinct", "<", "<=", ">", ">="):
            if xs[0][0] == "b":
                r = A
                for x, y in zip(vs, vs[1:]):
                    r &= A & ~(x ^ y) if h == "=" else x ^ y
                return ("b", r)
            if xs[0][0] == "v":
                r = A
                for x, y in zip(vs[0], vs[1]):
                    r &= A & ~(x ^ y)
                return ("b", r if h == "=" else A & ~r)
            f = {"=": lambda a, b: a == b, "distinct": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
                 ">=": lambda a, b: a >= b}[h]
            r = A
            for x, y in zip(vs, vs[1:]):
                if not isinstance(x, dict) and not isinstance(y, dict):
                    r &= A if x is not None and y is not None and f(x, y) else 0
                else:
                    r &= imap(self.s, lambda a, b: None if a is None or b is None else f(a, b), self.cell(x), self.cell(y)).get(True, 0)
            return ("b", r)
        if h in ("+", "-", "*", "div", "mod"):
            def f(*a):
                if None in a:
                    return None
                if h == "-" and len(a) == 1:
                    return -a[0]
                r = a[0]
                for b in a[1:]:
                    if h in ("div", "mod"):
                        r = (tdiv if h == "div" else tmod)(r, b)
                        if r is None:
                            return None
                    else:
                        r = r + b if h == "+" else r - b if h == "-" else r * b
                return r
            if not any(isinstance(v, dict) for v in vs):
                return ("n", f(*vs))
            return ("n", imap(self.s, f, *[self.cell(v) for v in vs]))
        if h in ("bvand", "bvor", "bvxor", "bvxnor"):
            r = vs[0]
            for v in vs[1:]:
                r = tuple({"bvand": x & y, "bvor": x | y, "bvxor": x ^ y, "bvxnor": A & ~(x ^ y)}[h] for x, y in zip(r, v))
            return ("v", r)
        if h == "bvnot":
            return ("v", tuple(A & ~x for x in vs[0]))
        if h in ("bvshl", "bvlshr"):
            v, a = vs
            if any(x not in (0, A) for x in a):
                raise Unclear("shift by an unknown amount")
            n = sum(1 << i for i, x in enumerate(a) if x)
            w = len(v)
            if h == "bvshl":
                return ("v", tuple(v[i - n] if i >= n else 0 for i in range(w)))
            return ("v", tuple(v[i + n] if i + n < w else 0 for i in range(w)))
        if h in ("bvugt", "bvuge", "bvult", "bvule"):
            x, y = vs if h in ("bvugt", "bvuge") else vs[::-1]
            r = A if h in ("bvuge", "bvule") else 0
            for a, b in zip(x, y):                                 # from the lowest bit
                r = a & ~b & A | A & ~(a ^ b) & r
            return ("b", r)
        raise Unclear(h)

    def call(self, f, xs):
        key = (f, tuple(x if not isinstance(x[1], dict) else id(x[1]) for x in xs))
        if key in self.memo:
            return self.memo[key]
        if f in self.c.defs:
            ps, _, body = self.c.defs[f]
            r = self.ev(body, {p: x for (p, _), x in zip(ps, xs)})
        elif f in self.k:
            r = ("n", self.k[f])
        elif f in self.owner:
            s, sort = self.owner[f], self.c.decls[f][1]
            if isinstance(sort, tuple):
                if xs:
                    raise Unclear("function over bit vectors")
                w = sort[1]
                r = ("v", tuple(self.s.at(s, w - 1 - i) for i in range(w)))
            elif len(xs) == 1 and isinstance(xs[0][1], int) and self.c.decls[f][0] == ["Int"]:
                v = self.s.at(s, xs[0][1])
                r = ("n", v) if sort == "Int" else ("b", v)
            else:
                raise Unclear(f"{f} is not read at a known position")
        else:
            raise Unclear(f"{f} stands for nothing in the formula")
        self.memo[key] = r
        return r

    def holds(self):
        r = self.s.all
        for a in self.c.asserts:
            r &= self.ev(a, {})[1]
            if not r:
                break
        return r


# ---------------------------------------------------------------- obligations
def owners(script, sig):
    """Which declared function stands for which signal."""
    out = {}
    for f, (ps, srt) in script.decls.items():
        if not ps and srt == "Int":
            continue                                                # a length or a bound
        hit = [n for n in sig if f == n or f.endswith("_" + n)]
        if len(hit) == 1:
            out[f] = hit[0]
    if sorted(out.values()) != sorted(sig):
        raise Unclear("signals not found among the declarations")
    return out


def literal_trace(space, bit, sig):
    """The formula that holds on exactly one trace."""
    lits = []
    for (s, p), v in space.vars.items():
        if p >= space.W:
            continue
        if isinstance(v, dict):
            val = next(x for x, m in v.items() if m >> bit & 1)
            l = ("EQUAL", ("i", s), ("c", val))
        else:
            l = ("s", s) if v >> bit & 1 else ("LOGICAL_NEGATE", ("s", s))
        lits.append(("FUTURE", p, p, l) if p else l)
    return lits


def evaluate(theory, text, tree, strict, space, length, env):
    sc = Script(text)
    sig = signals(tree)
    own = owners(sc, sig)
    W = space.W
    consts = dict(env)
    free = [d for d, (ps, srt) in sc.decls.items() if not ps and srt == "Int" and d not in consts]
    if strict and theory != "qf_bv":
        if len(free) > 1 and "M" in free and "M" not in env:
            free.remove("M")
            consts["M"] = 0
        if len(free) != 1:
            raise Unclear("length not found")
        consts[free[0]] = length
    else:
        for f in free:
            consts[f] = 0                                            # declared, not used
    return Eval(sc, space, consts, own, range(-2, W + 6)).holds()


def space_for(tree, W):
    sig = signals(tree)
    bools, ints = [n for n, k in sig.items() if k == "s"], [n for n, k in sig.items() if k in ("i", "v")]
    dom = (-3, 0, 1, 2) if not any(x[0] in ("ARITHMETIC_DIVIDE", "ARITHMETIC_MODULO") for x in walk(tree)) else (0, 1, 3, 7)
    extra = 1 if (2 ** len(bools) * 4 ** len(ints)) ** (W + 1) <= 1 << 18 else 0
    return Space(bools, ints, W, dom, extra)


def reach(tree, env):
    b = lambda x: x if isinstance(x, int) else next(iter(Meaning(Space([], [], 1), env=env).num(x, 0)))
    return max([reach(c, env) for c in kids(tree)], default=0) + (b(tree[2]) if tree[0] in TEMP else 0)


def expect(tree, space, strict, length, env, theory):
    """(traces the assertion has to hold on, traces it may hold on)."""
    m = Meaning(space, length if strict else None, env)
    t = m.at(tree, 0)
    und = m.undefined
    return t & ~und, t | und


def satisfiable(theory, tree, strict):
    """Whether some trace (and, when strict, some length) satisfies the text, and whether one satisfies the formula."""
    text = text_of(theory, tree, strict)
    if text is None:
        raise Unclear("refused")
    n = wpd(tree) + 1
    got = want = False
    for L in range(0, n + 2) if strict and theory != "qf_bv" else [None]:
        sp = space_for(tree, n)
        got |= bool(evaluate(theory, text, tree, strict, sp, L, {}))
    sp = space_for(tree, n)
    want = bool(Meaning(sp, None).at(tree, 0))
    return got, want


def check_one(rep, theory, tree, strict, constraints=(), envs=None, supported=True):
    mode = "strict" if strict else "default"
    key = f"{theory}:{mode}:{show(tree)}" + ("".join(" with " + show(c) for c in constraints))
    fn = ENC[theory]
    at = where_of("sat", fn)
    try:
        text = text_of(theory, tree, strict, constraints)
    except (ValueError, KeyError) as e:
        rep.skip(key, f"text not derived ({str(e)[:120]})")
        return
    if not supported:
        rep.require(text is None, f"refuse:{key}", f"{fn} ({mode}): {show(tree)} cannot be expressed, but the encoding is reported as made: {str(text)[-120:]!r}", at, "refusals")
        return
    if not isinstance(text, str):
        rep.skip(key, "refused")
        return
    if not text.strip():
        rep.bad(f"empty:{key}", f"{fn} ({mode}): the text for {show(tree)} is empty", at)
        return
    try:
        Script(text)
    except Bad as e:
        rep.bad(f"sorts:{key}", f"{fn} ({mode}): the text for {show(tree)} is not a well-sorted script: {e}", at)
        return
    for env in envs or [{}]:
        n = reach(tree, env) + 1
        try:
            okc = all(Meaning(Space([], [], 1), env=env).at(c, 0) for c in constraints)
            proper = all(t[0] not in TEMP or Meaning(Space([], [], 1), env=env).bound(t[1]) <= Meaning(Space([], [], 1), env=env).bound(t[2]) for t in walk(tree))
        except KeyError:
            continue
        lengths = [None]
        if strict and theory != "qf_bv":
            lengths = list(range(0, n + 3))
        for L in lengths:
            try:
                sp = space_for(tree, n)
                got = evaluate(theory, text, tree, strict, sp, L, env)
            except (Unclear, ValueError) as e:
                rep.skip(key, str(e)[:100])
                return
            except Bad as e:
                rep.bad(f"sorts:{key}", f"{fn} ({mode}): the text for {show(tree)} is not a well-sorted script: {e}", at)
                return
            if not okc or not proper:
                lo = hi = 0
            elif strict and theory == "qf_bv":
                # some length up to the width
                lo = hi = 0
                for l in range(1, n + 1):
                    m = Meaning(sp, l, env)
                    # the vector holds position t in bit n-1-t; a shorter trace starts later
                    shifted = shift_meaning(sp, tree, n, l)
                    lo |= shifted
                hi = lo
            elif strict and L <= 0:
                # an empty trace must not turn an unsatisfiable formula satisfiable; where the UFLIA encoding ends a trace early is not specified
                lo, hi = 0, sp.all if theory == "uflia" or any(Meaning(sp, l, env).at(tree, 0) for l in range(1, n + 1)) else 0
            elif strict and theory == "uflia" and L < n:
                m = Meaning(sp, L, env)
                lo, hi = 0, sp.all                                    # where the trace ends inside a window is not specified
                if tree[0] in ("FUTURE", "UNTIL") and L <= tree[1]:
                    hi = 0
                elif tree[0] in ("GLOBAL", "RELEASE") and L <= tree[1]:
                    lo = sp.all
            else:
                lo, hi = expect(tree, sp, strict, L, env, theory)
            miss, over = lo & ~got, got & ~hi
            if not miss and not over:
                rep.ok(what="encodings evaluated", sample=f"{key}" + (f" length {L}" if L is not None else "") + f": {sp.n} traces")
                continue
            bit = ((miss or over) & -(miss or over)).bit_length() - 1
            trace = sp.describe(bit)
            what = "is excluded though it satisfies the formula" if miss else "is accepted though it does not satisfy the formula"
            ln = f" of length {L}" if L is not None else ""
            # the same difference as an answer: the formula together with that very trace
            confirmed = None
            if not env and not constraints:
                try:
                    lits = literal_trace(sp, bit, signals(tree))
                    g, w = satisfiable(theory, ("LOGICAL_AND", tree, *lits) if lits else tree, strict)
                    confirmed = g != w if not (strict and L is not None and L < n) else None
                except (Unclear, ValueError, KeyError, Bad):
                    confirmed = None
            rep.bad(f"meaning:{key}", f"{fn} ({mode}): for {show(tree)} the trace{ln} {trace} {what}" + (" (confirmed by the answer for the formula and that trace)" if confirmed else "")
                    + (f" with {env}" if env else ""), at)
            return


def shift_meaning(sp, tree, n, l):
    """The formula at position n-l of the trace of n positions: the trace of length l that is its tail."""
    m = Meaning(sp, n, {})
    return m.at(tree, n - l)


a, b, c = ("s", "a"), ("s", "b"), ("s", "c")
x, y = ("i", "x"), ("i", "y")


def family():
    """(tree, theories) of the formulas every encoding is evaluated on."""
    N = lambda t: ("LOGICAL_NEGATE", t)
    And = lambda *t: ("LOGICAL_AND", *t)
    Or = lambda *t: ("LOGICAL_OR", *t)
    F = lambda l, u, t: ("FUTURE", l, u, t)
    G = lambda l, u, t: ("GLOBAL", l, u, t)
    U = lambda l, u, s, t: ("UNTIL", l, u, s, t)
    R = lambda l, u, s, t: ("RELEASE", l, u, s, t)
    pure = [a, ("c", True), ("c", False), N(a), And(a, b), Or(a, b), And(a, b, c), Or(a, b, c), ("LOGICAL_EQUIV", a, b), And(a, N(a)), ("atom", a),
            And(a, b, F(3, 3, c)), Or(a, b, G(2, 2, c)), N(("LOGICAL_EQUIV", F(0, 1, a), G(1, 2, a)))]
    for l, u in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 3), (2, 4), (0, 4), (1, 4), (0, 5), (3, 5)):
        pure += [F(l, u, a), G(l, u, a), U(l, u, a, b)]
    pure += [F(0, 6, a), G(0, 6, a), F(1, 8, a), G(2, 9, a), F(3, 3, N(a)), F(0, 1, G(1, 2, a)), G(1, 2, F(0, 1, a)), N(F(1, 2, a)), N(G(1, 2, a)), U(1, 2, F(0, 1, a), G(0, 1, b)),
             U(0, 1, a, U(1, 2, b, a)), F(1, 2, And(a, N(b))), G(0, 1, Or(N(a), F(1, 1, b))), And(F(0, 1, a), G(2, 3, a)), F(0, 0, F(1, 1, a)), G(1, 1, G(0, 2, a)),
             F(0, 2, F(1, 2, a)), U(0, 2, N(a), b), U(0, 2, a, N(b)), N(U(0, 2, a, b))]
    # any number of operands, shared parts, depth
    d, e = ("s", "d"), ("s", "e")
    pure += [And(a, b, c, d), Or(a, b, c, d), And(a, N(b), c, F(1, 1, d)), Or(N(a), b, N(c), G(1, 1, d)), And(a, b, c, d, e), Or(a, b, c, d, e), And(F(0, 1, a), G(0, 1, F(0, 1, a))),
             Or(a, N(a), F(1, 1, a)), F(1, 1, Or(a, b, And(a, b, c))), G(0, 1, F(0, 1, G(1, 1, a))), N(Or(a, b, c, N(d)))]
    # signals may be called anything
    pure += [And(("s", "e0"), N(("s", "e1"))), F(1, 2, Or(("s", "e1"), ("s", "len"))), And(("s", "f_e0"), ("s", "k"), ("s", "M"))]
    pure += [F(0, 9, a), G(0, 9, a), G(5, 11, a), F(2, 12, a), U(0, 6, a, b)]
    out = [(t, ("uflia", "qf_uflia", "qf_bv")) for t in pure]
    out += [(t, ("uflia", "qf_uflia")) for t in (("LOGICAL_IMPLIES", a, b), ("LOGICAL_IMPLIES", F(0, 1, a), G(1, 2, b)), ("EQUAL", a, b), ("NOT_EQUAL", a, b))]
    out += [(t, ("uflia",)) for t in (R(0, 0, a, b), R(0, 2, a, b), R(1, 3, a, b), R(2, 3, a, b), N(R(0, 1, a, b)), R(0, 1, N(a), F(0, 1, b)))]
    two = []
    for k in REL:
        two += [(k, x, y), (k, x, ("c", 1))]
    two += [("GREATER_THAN", x, ("c", -1)), ("LESS_THAN", ("c", -3), x), ("EQUAL", ("ARITHMETIC_ADD", x, y), ("c", 2)), ("GREATER_THAN", ("ARITHMETIC_SUBTRACT", x, y), ("c", 0)), ("LESS_THAN", ("ARITHMETIC_MULTIPLY", x, y), ("c", 3)),
            ("EQUAL", ("ARITHMETIC_DIVIDE", x, y), ("c", 2)), ("EQUAL", ("ARITHMETIC_MODULO", x, y), ("c", 1)), ("EQUAL", ("ARITHMETIC_NEGATE", x), y),
            F(1, 2, ("EQUAL", x, ("c", 2))), G(0, 1, ("LESS_THAN", x, y)), ("atom", ("GREATER_THAN_OR_EQUAL", x, ("c", 0))), ("EQUAL", ("v", "w"), ("c", 2)),
            ("LOGICAL_AND", ("atom", ("EQUAL", x, ("c", 1))), F(0, 1, N(("atom", ("EQUAL", x, ("c", 1))))))]
    out += [(t, ("uflia", "qf_uflia")) for t in two]
    return out


def refusals():
    """Formulas an encoding cannot express: it has to say so."""
    both = ("uflia", "qf_uflia", "qf_bv")
    fl = ("f", "z")
    out = [(("EQUAL", fl, fl), both), (("atom", ("GREATER_THAN", fl, fl)), both), (("LOGICAL_XOR", a, b), both), (("ONCE", a), both)]
    out += [(("EQUAL", x, ("c", 1)), ("qf_bv",)), (("RELEASE", 0, 1, a, b), ("qf_uflia", "qf_bv"))]
    return out


def symbolic():
    sv, tv = ("sv", "n"), ("sv", "m")
    out = []
    envs = [{"n": i, "m": j} for i in range(4) for j in range(4)]
    for k in ("FUTURE", "GLOBAL"):
        out += [((k, sv, tv, a), [("LESS_THAN", sv, ("c", 3))], envs), ((k, sv, ("ARITHMETIC_ADD", sv, ("c", 1)), a), [("LESS_THAN", sv, ("c", 2))], [{"n": i} for i in range(4)]),
                ((k, ("c", 0), ("c", 0), a), [], [{}]), ((k, ("c", 1), ("c", 1), a), [], [{}])]
    for k in ("UNTIL", "RELEASE"):
        out += [((k, sv, tv, a, b), [("GREATER_THAN", tv, sv)], [{"n": i, "m": j} for i in range(3) for j in range(3)])]
    for k in REL:
        out.append((("FUTURE", sv, tv, a), [(k, sv, ("c", 1))], [{"n": i, "m": j} for i in range(3) for j in range(3)]))
    for k in ("ARITHMETIC_ADD", "ARITHMETIC_SUBTRACT", "ARITHMETIC_MULTIPLY", "ARITHMETIC_DIVIDE", "ARITHMETIC_MODULO", "MIN", "MAX"):
        out.append((("FUTURE", sv, tv, a), [("EQUAL", (k, tv, ("ARITHMETIC_ADD", sv, ("c", 1))), ("c", 1))], [{"n": i, "m": j} for i in range(3) for j in range(4)]))
    return out


def p20(rep):
    jobs = []
    for t, ths in family():
        for th in ths:
            for strict in (False, True):
                jobs.append((f"{th}:{strict}:{show(t)}", lambda r, th=th, t=t, s=strict: check_one(r, th, t, s)))
    for t, ths in refusals():
        for th in ths:
            jobs.append((f"{th}:refuse:{show(t)}", lambda r, th=th, t=t: check_one(r, th, t, False, supported=False)))
    for t, cons, envs in symbolic():
        jobs.append((f"uflia:symbolic:{show(t)}{[show(c) for c in cons]}", lambda r, t=t, cons=cons, envs=envs: check_one(r, "uflia", t, False, cons, envs)))
    # groups, to spare the forks
    def batch(part):
        def f(r):
            for n, g in part:
                r.guard(n, g, r)
        return f
    rep.tasks([(f"encodings {i}", batch(jobs[i::24])) for i in range(24)])
