"""Exact semantics of the specification language's logical operators over small time windows.

Formulas are denoted by reduced ordered decision diagrams over the variables (time, proposition), so two
formulas are equivalent on every trace iff they denote the same diagram.  No solver and no sampling.
"""
from __future__ import annotations


class BDD:
    def __init__(self):
        self.uniq, self.memo = {}, {}
        self.var = {}

    def mk(self, v, h, l):
        if h == l:
            return h
        k = (v, h, l)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = len(self.uniq) + 2
            self.var[n] = k
        return n

    def v(self, name):
        return self.mk(name, 1, 0)

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is None:
            t = min(self.var[x][0] for x in k if x > 1)
            hs, ls = [], []
            for x in k:
                if x > 1 and self.var[x][0] == t:
                    hs.append(self.var[x][1]), ls.append(self.var[x][2])
                else:
                    hs.append(x), ls.append(x)
            r = self.mk(t, self.ite(*hs), self.ite(*ls))
            self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def iff(self, a, b):
        return self.ite(a, b, self.not_(b))

    def witness(self, n):
        """One satisfying assignment {var: bool} of a non-false diagram."""
        out = {}
        while n > 1:
            v, h, l = self.var[n]
            if h != 0:
                out[v] = True
                n = h
            else:
                out[v] = False
                n = l
        return out


class Undefined(Exception):
    pass


TEMPORAL = {"GLOBAL": 1, "FUTURE": 1, "UNTIL": 2, "RELEASE": 2, "HISTORICAL": 1, "ONCE": 1, "SINCE": 2, "TRIGGER": 2}
FUTURE_OPS = {"GLOBAL", "FUTURE", "UNTIL", "RELEASE"}
PAST_OPS = {"HISTORICAL", "ONCE", "SINCE", "TRIGGER"}
BOOL_ARITY = {"LOGICAL_NEGATE": 1, "LOGICAL_XOR": 2, "LOGICAL_IMPLIES": 2, "LOGICAL_EQUIV": 2, "EQUAL": 2,
              "NOT_EQUAL": 2}
NARY = {"LOGICAL_AND", "LOGICAL_OR"}
ARITH_NARY = {"ARITHMETIC_ADD", "ARITHMETIC_MULTIPLY"}


class Sem:
    """Denotations.  A formula is ('p', i) | ('c', bool) | ('o', KIND, children) | ('t', KIND, lb, ub, children)."""

    def __init__(self):
        self.b = BDD()
        self.memo = {}

    def at(self, f, t):
        k = (f, t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._at(f, t)
        return r

    def _at(self, f, t):
        b = self.b
        if f[0] == "p":
            return b.v((t, f[1]))
        if f[0] == "c":
            return 1 if f[1] else 0
        if f[0] == "o":
            k = f[1]
            xs = [self.at(c, t) for c in f[2]]
            if k == "LOGICAL_AND":
                r = 1
                for x in xs:
                    r = b.and_(r, x)
                return r
            if k == "LOGICAL_OR":
                r = 0
                for x in xs:
                    r = b.or_(r, x)
                return r
            if k not in BOOL_ARITY:
                raise Undefined(k)
            if len(xs) != BOOL_ARITY[k]:
                raise Undefined(f"{k} with {len(xs)} operands")
            if k == "LOGICAL_NEGATE":
                return b.not_(xs[0])
            x, y = xs
            if k in ("LOGICAL_XOR", "NOT_EQUAL"):
                return b.not_(b.iff(x, y))
            if k in ("LOGICAL_EQUIV", "EQUAL"):
                return b.iff(x, y)
            return b.or_(b.not_(x), y)
        _, k, lb, ub, ch = f
        if len(ch) != TEMPORAL.get(k, -1):
            raise Undefined(f"{k} with {len(ch)} operands")
        if k in ("GLOBAL", "HISTORICAL", "FUTURE", "ONCE"):
            univ = k in ("GLOBAL", "HISTORICAL")
            r = 1 if univ else 0
            for j in range(lb, ub + 1):
                tt = t + j if k in FUTURE_OPS else t - j
                if tt < 0:
                    continue
                x = self.at(ch[0], tt)
                r = b.and_(r, x) if univ else b.or_(r, x)
            return r
        p, q = ch
        if k in ("UNTIL", "RELEASE"):
            u = k == "UNTIL"
            # p U[l,u] q : some i in [l,u] with q at i and p on [l,i)
            r = 0 if u else 1
            for j in range(ub, lb - 1, -1):
                pj, qj = self.at(p, t + j), self.at(q, t + j)
                if j == ub:
                    r = qj
                else:
                    r = b.or_(qj, b.and_(pj, r)) if u else b.and_(qj, b.or_(pj, r))
            return r
        # past: p S[l,u] q : some i with l <= t-i <= u, q at i and p on (i, t-l]
        s = k == "SINCE"
        r = 0 if s else 1
        for j in range(ub, lb - 1, -1):
            if t - j < 0:
                continue
            pj, qj = self.at(p, t - j), self.at(q, t - j)
            r = b.or_(qj, b.and_(pj, r)) if s else b.and_(qj, b.or_(pj, r))
        return r


def horizon(f):
    if f[0] in ("p", "c"):
        return 0
    if f[0] == "o":
        return max([horizon(c) for c in f[2]] + [0])
    return f[3] + max([horizon(c) for c in f[4]] + [0])


def has_past(f):
    if f[0] in ("p", "c"):
        return False
    if f[0] == "o":
        return any(has_past(c) for c in f[2])
    return f[1] in PAST_OPS or any(has_past(c) for c in f[4])


def equivalent(a, b, sem=None):
    """(True, None) or (False, (time, witness))."""
    sem = sem or Sem()
    times = [0]
    if has_past(a) or has_past(b):
        h = max(horizon(a), horizon(b))
        times = list(range(0, h + 2))
    for t in times:
        x, y = sem.at(a, t), sem.at(b, t)
        if x != y:
            return False, (t, sem.b.witness(sem.b.not_(sem.b.iff(x, y))))
    return True, None


def show(f):
    if f[0] == "p":
        return f"p{f[1]}"
    if f[0] == "c":
        return "true" if f[1] else "false"
    if f[0] == "o":
        s = {"LOGICAL_AND": "&&", "LOGICAL_OR": "||", "LOGICAL_XOR": "xor", "LOGICAL_IMPLIES": "->",
             "LOGICAL_EQUIV": "<->", "EQUAL": "==", "NOT_EQUAL": "!="}.get(f[1], f[1])
        if len(f[2]) == 1:
            return ("!" if f[1] == "LOGICAL_NEGATE" else s) + show(f[2][0])
        return "(" + f" {s} ".join(show(c) for c in f[2]) + ")"
    n = f[1][0]
    if len(f[4]) == 1:
        return f"{n}[{f[2]},{f[3]}]({show(f[4][0])})"
    return f"({show(f[4][0])} {n}[{f[2]},{f[3]}] {show(f[4][1])})"
