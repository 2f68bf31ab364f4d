"""Interpretation of gated values over small finite models (expression shapes, integers, lists).

The gated value of a function is computed once, for all inputs, by the dataflow analysis.  This module
evaluates that summary in a given finite model, e.g. an operator node with opaque operands, so that a
rule's left- and right-hand sides become concrete formulas.
"""
from __future__ import annotations
from .dd import T, C, Term, Node
from . import dd


class Undecided(Exception):
    pass


class Crash(Exception):
    """The evaluated term indexes outside a list, or the like."""


class M:
    """A model of an expression object."""
    __slots__ = ("cls", "kind", "children", "lb", "ub", "value", "prop", "extra")

    def __init__(self, cls, kind=None, children=(), lb=None, ub=None, value=None, prop=None, extra=None):
        self.cls, self.kind, self.children = cls, kind, list(children)
        self.lb, self.ub, self.value, self.prop = lb, ub, value, prop
        self.extra = extra or {}

    def key(self):
        return (self.cls, self.kind, tuple(c.key() if isinstance(c, M) else c for c in self.children), self.lb, self.ub,
                self.value, self.prop)

    def __repr__(self):
        if self.prop is not None:
            return f"p{self.prop}"
        if self.cls == "Constant":
            return repr(self.value)
        iv = f"[{self.lb},{self.ub}]" if self.lb is not None else ""
        return f"{self.kind or self.cls}{iv}({', '.join(map(repr, self.children))})"


class Interval:
    def __init__(self, m):
        self.m = m


class Enum(tuple):
    pass


class Ev:
    def __init__(self, proj, env, binders=None, kindcls="OperatorKind", hook=None):
        self.p, self.env = proj, env
        self.memo = {}
        self.kindcls = kindcls
        self.hook = hook

    def child(self, extra):
        e = dict(self.env)
        e.update(extra)
        return Ev(self.p, e, kindcls=self.kindcls, hook=self.hook)

    # -------------------------------------------------- nodes
    def node(self, n):
        while n.leaf is None:
            n = n.hi if self.truthy(self.ev_atom(n.atom)) else n.lo
        return self.ev(n.leaf)

    def leaf(self, n):
        while n.leaf is None:
            n = n.hi if self.truthy(self.ev_atom(n.atom)) else n.lo
        return n.leaf

    def leaves(self, n, out=None):
        """Leaf terms reachable; undecided tests go both ways."""
        if out is None:
            out = []
        if n.leaf is not None:
            if n.leaf not in out:
                out.append(n.leaf)
            return out
        try:
            v = self.truthy(self.ev_atom(n.atom))
        except Undecided:
            self.leaves(n.hi, out)
            self.leaves(n.lo, out)
            return out
        return self.leaves(n.hi if v else n.lo, out)

    def truthy(self, v):
        if isinstance(v, (M, Enum, Interval)):
            return True
        return bool(v)

    def ev_atom(self, a):
        return self.ev(a)

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            v = self.memo[t]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self._ev(t)
        except (Undecided, Crash) as e:
            self.memo[t] = e
            raise
        self.memo[t] = v
        return v

    def evx(self, x):
        return self.node(x) if isinstance(x, Node) else self.ev(x)

    def _ev(self, t):
        op, a = t.op, t.args
        if self.hook:
            r = self.hook(self, t)
            if r is not None:
                return r
        if op == "c":
            return a[0]
        if op == "enum":
            return Enum(("enum", a[0], a[1]))
        if op == "g":
            return Enum(("g",) + a)
        if op == "attr":
            return self.attr(self.ev(a[0]), a[1])
        if op == "idx":
            b, k = self.ev(a[0]), self.ev(a[1])
            if isinstance(b, (list, tuple, str)) and not isinstance(b, Enum) and isinstance(k, int):
                if not -len(b) <= k < len(b):
                    raise Crash(f"index {k} of a sequence of {len(b)}")
                return b[k]
            if isinstance(b, dict):
                if k in b:
                    return b[k]
                raise Crash("missing key")
            raise Undecided(f"index {dd.show(t)}")
        if op == "raise_index":
            raise Crash("index outside a literal list")
        if op == "obj":
            return self.obj(t)
        if op in ("list", "tuple"):
            out = []
            for x in a:
                if x.op == "splice":
                    out += self.seq(x.args[0])
                else:
                    out.append(self.ev(x))
            return out if op == "list" else tuple(out)
        if op == "set":
            return [self.ev(x) for x in a]
        if op == "lin":
            r = a[0]
            for i in range(1, len(a), 2):
                v = self.ev(a[i])
                if isinstance(v, bool) or not isinstance(v, (int, float)):
                    if not isinstance(v, bool):
                        raise Undecided("arithmetic on a non-number")
                r += v * a[i + 1]
            return r
        if op == "mul":
            return self.num(a[0]) * self.num(a[1])
        if op == "bin":
            return self.binop(a[0], self.ev(a[1]), self.ev(a[2]))
        if op == "len":
            return len(self.seq(a[0]))
        if op == "eq":
            return self.eq(self.ev(a[0]), self.ev(a[1]))
        if op == "le0":
            return self.num(a[0]) <= 0
        if op == "truthy":
            return self.truthy(self.ev(a[0]))
        if op == "cls":
            return self.isinst(self.ev(a[0]), a[1])
        if op == "in":
            x = self.ev(a[0])
            return any(self.eq(x, y) for y in self.seq(a[1]))
        if op == "slice":
            b = self.seq(a[0])
            lo, hi, st = [self.ev(x) for x in a[1:4]]
            return b[slice(lo, hi, st)]
        if op == "typeof":
            v = self.ev(a[0])
            if isinstance(v, M):
                return Enum(("g", self.p.class_of.get(v.cls, "?"), v.cls))
            raise Undecided("type")
        if op == "call":
            return self.call(t)
        if op == "mcall":
            return self.mcall(t)
        if op in ("flatmap",) and len(a) == 3:
            h, cnt, body = a
            out = []
            for i in range(self.count(cnt)):
                e = self.child({T("ivar", h): i})
                out += e.seqv(e.node(body))
            return out
        if op == "any" and len(a) == 3:
            h, cnt, g = a
            for i in range(self.count(cnt)):
                e = self.child({T("ivar", h): i})
                if e.truthy(e.node(g)):
                    return True
            return False
        if op == "first" and len(a) == 4:
            h, cnt, g, v = a
            for i in range(self.count(cnt)):
                e = self.child({T("ivar", h): i})
                if e.truthy(e.node(g)):
                    return e.node(v)
            raise Undecided("first of none")
        if op in ("fix", "any", "first") and isinstance(a[0], int):
            return self.system(t)
        if op == "repeat":
            return self.seq(a[0]) * self.num(a[1])
        if op == "fmt":
            return ("fmt", self.key(self.ev(a[0])), self.key(self.ev(a[1])))
        if op == "cat":
            return ("cat",) + tuple(self.key(self.ev(x)) for x in a)
        if op == "inv":
            return ~self.num(a[0])
        raise Undecided(f"{op}: {dd.show(t)[:120]}")

    def count(self, cnt):
        n = self.ev(cnt)
        if not isinstance(n, int):
            raise Undecided("loop count")
        if n > 400:
            raise Undecided("long loop")
        return n

    def num(self, t):
        v = self.ev(t)
        if not isinstance(v, (int, float)):
            raise Undecided("number expected")
        return v

    def seq(self, t):
        return self.seqv(self.ev(t))

    def seqv(self, v):
        if isinstance(v, Enum):
            raise Undecided("sequence expected")
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        raise Undecided("sequence expected")

    def system(self, t):
        a = t.args
        h, cnt, nout = a[0], a[1], a[2]
        outs = a[3:3 + nout]
        cond, exit_ = a[3 + nout], a[4 + nout]
        rest = a[5 + nout:]
        n = len(rest) // 2
        upds, inits = rest[:n], rest[n:]
        cars = [self.evx(x) for x in inits]
        lim = self.count(cnt) if not (cnt.op == "c" and cnt.args[0] is None) else 300
        i = 0
        while i < lim:
            env = {T("car", h, j): cars[j] for j in range(n)}
            env[T("ivar", h)] = i
            e = self.child(env)
            if not e.truthy(e.evx(cond)):
                break
            if t.op in ("any", "first"):
                if e.truthy(e.evx(outs[0])):
                    return True if t.op == "any" else e.evx(outs[1])
            new = [e.evx(u) for u in upds]
            ex = e.truthy(e.evx(exit_))
            cars = new
            i += 1
            if ex:
                break
        else:
            if cnt.op == "c" and cnt.args[0] is None:
                raise Undecided("loop does not end")
        if t.op == "any":
            return False
        if t.op == "first":
            raise Undecided("first of none")
        e = self.child({T("car", h, j): cars[j] for j in range(n)})
        return e.evx(outs[0])

    def binop(self, op, x, y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            import operator as o
            f = {"FloorDiv": o.floordiv, "Mod": o.mod, "LShift": o.lshift, "RShift": o.rshift, "BitAnd": o.and_,
                 "BitOr": o.or_, "BitXor": o.xor, "Div": o.truediv, "Pow": o.pow}.get(op)
            if f:
                try:
                    return f(x, y)
                except ZeroDivisionError:
                    raise Crash("division by zero")
        raise Undecided("binop " + op)

    def key(self, v):
        if isinstance(v, M):
            return v.key()
        if isinstance(v, Interval):
            return ("iv", v.m.lb, v.m.ub)
        if isinstance(v, list):
            return ("list",) + tuple(self.key(x) for x in v)
        if isinstance(v, tuple) and not isinstance(v, Enum):
            return tuple(self.key(x) for x in v)
        if isinstance(v, dict):
            return ("dict",) + tuple((self.key(k), self.key(x)) for k, x in v.items())
        return (type(v).__name__, v)

    def eq(self, x, y):
        return self.key(x) == self.key(y)

    def isinst(self, v, name):
        if isinstance(v, M):
            if v.prop is not None and v.cls is None:
                # an opaque operand: some expression of no kind that the rule singles out
                return name in ("Expression", "Node")
            return name in self.p.supers(v.cls)
        py = {"bool": bool, "int": int, "str": str, "float": float, "list": list, "tuple": tuple, "dict": dict}.get(name)
        if py:
            return isinstance(v, py)
        if isinstance(v, Enum) and v[0] == "enum":
            return name in self.p.supers(v[1])
        return False

    def attr(self, b, name):
        if isinstance(b, M):
            if name in b.extra:
                return b.extra[name]
            if name == "children":
                return b.children
            if name == "operator" and b.kind is not None:
                return Enum(("enum", self.kindcls, b.kind))
            if name == "interval" and b.lb is not None:
                return Interval(b)
            if name == "value" and b.cls == "Constant":
                return b.value
            if name in ("loc", "type"):
                return Enum(("opaque", name))
            raise Undecided(f"attribute {name} of {b!r}")
        if isinstance(b, Interval):
            if name == "lb":
                return b.m.lb
            if name == "ub":
                return b.m.ub
        if isinstance(b, dict) and name in b:
            return b[name]
        raise Undecided(f"attribute {name}")

    def obj(self, t):
        from .pyfront import ctor_params
        c = t.args[0]
        ps = ctor_params(self.p, c) or []
        vals = {}
        for n, x in zip(ps, t.args[1:]):
            if n in ("loc",):
                continue
            try:
                vals[n] = self.ev(x)
            except Undecided:
                if n in ("type", "set_parents"):
                    continue
                raise
        sup = self.p.supers(c)
        if "Constant" in sup:
            return M(c, value=vals.get("value", vals.get("v")))
        if "Operator" in sup:
            kind = next((v for v in vals.values() if isinstance(v, Enum) and v[0] == "enum" and v[1] == self.kindcls), None)
            if kind is None:
                raise Undecided("operator kind")
            ch = next((v for v in vals.values() if isinstance(v, list)), None)
            if ch is None:
                raise Undecided("operands")
            lb, ub = vals.get("lb"), vals.get("ub")
            if "interval" in vals and isinstance(vals["interval"], Interval):
                lb, ub = vals["interval"].m.lb, vals["interval"].m.ub
            return M(c, kind=kind[2], children=ch, lb=lb, ub=ub)
        if c == "ConcreteInterval":
            return Interval(M(c, lb=vals.get("lb"), ub=vals.get("ub")))
        m = M(c, children=[], extra=vals)
        return m

    def call(self, t):
        a = t.args
        n = a[0]
        if n == "new":
            c = self.ev(a[1])
            if isinstance(c, Enum) and c[0] == "g":
                return self.obj(T("obj", c[-1], *a[2:]))
            raise Undecided("new")
        if n in ("str", "repr"):
            v = self.ev(a[1])
            if isinstance(v, str):
                return v
            return ("str", self.key(v))
        if n == "range":
            return list(range(*[self.num(x) for x in a[1:]]))
        if n in ("list", "tuple", "iter"):
            return self.seq(a[1])
        if n == "set":
            out = []
            for x in self.seq(a[1]):
                if not any(self.eq(x, y) for y in out):
                    out.append(x)
            return out
        if n == "reversed":
            return self.seq(a[1])[::-1]
        if n == "enumerate":
            return [tuple(x) for x in enumerate(self.seq(a[1]))]
        if n == "zip":
            return [tuple(x) for x in zip(*[self.seq(x) for x in a[1:]])]
        if n in ("max", "min", "sum"):
            xs = self.seq(a[1])
            if not xs and n != "sum":
                raise Crash("max of an empty sequence")
            return {"max": max, "min": min, "sum": sum}[n](xs)
        if n == "abs":
            return abs(self.num(a[1]))
        if n == "int":
            v = self.ev(a[1])
            if isinstance(v, (int, float)):
                return int(v)
        raise Undecided(f"call {n}")

    def mcall(self, t):
        a = t.args
        if a[0] == "copy":
            return list(self.seq(a[1]))
        if a[0] in ("count",):
            x = self.ev(a[2])
            return sum(1 for y in self.seq(a[1]) if self.eq(x, y))
        if a[0] in ("values", "keys", "items"):
            d = self.ev(a[1])
            if isinstance(d, dict):
                return list(getattr(d, a[0])())
        raise Undecided(f"method {a[0]}")
