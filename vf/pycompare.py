"""Comparison of a Python function's gated summary with the summary of its specification.

Both are computed by the same interpreter over the same project, so what they share is the same term.  A difference
counts only when it is certain: the path condition is satisfiable and the two results are built differently
(different constructors, constants, fields or operands).  Terms the analysis does not interpret do not count.
"""
from __future__ import annotations
from collections import Counter
from . import dd
from .dd import T, C, Term, Node

EQ, DIFF, UNK = "equal", "differ", "unknown"
CTOR = {"c", "obj", "o", "list", "tuple", "dict", "set", "enum", "cls", "g", "raise", "eff", "seq", "cat", "fmt", "pk", "keyerror", "raise_index", "m", "lin", "mul"}
SYM = {"v", "attr", "idx", "key", "len", "default", "ivar", "typeof", "exc"}
# uninterpreted operations that never return their argument unchanged for every argument
NOT_ID = {"sorted", "len", "abs", "bin", "percentfmt", "any", "inv"}
CALLS = {"call", "mcall", "sorted", "bin", "slice", "splice", "percentfmt", "repeat", "in", "b", "eq", "le0", "truthy", "isinst", "inv", "len", "idx", "attr",
         "key", "fmt", "store", "popped", "del", "insert", "setadd", "setdef", "typeof", "first", "any", "fix", "m", "undef", "slicestore"}


def opaque(t):
    """Does the term rest on an operation the analysis does not interpret?"""
    return dd.contains(t, lambda x: isinstance(x, Term) and x.op not in CTOR and x.op not in SYM and x.op not in ("truthy", "eq", "le0", "isinst", "b"))


def numeric(t):
    return dd.is_num(t) or t.op == "lin"


def flat_seq(s):
    out = []
    while s.op == "seq" and s.args:
        out.append(s.args[1])
        s = s.args[0]
    return s, out[::-1]


def is_text(t):
    if t.op == "call" and t.args[0] == "str" and len(t.args) == 2:
        return t.args[1].op in SYM and not opaque(t.args[1])
    return t.op == "v" and str(t.args[0]).startswith("text ")


def parts(t):
    return list(t.args) if t.op == "cat" else [t]


def added(s):
    out = set()
    while s.op == "setadd":
        out.add(s.args[1])
        s = s.args[0]
    return s, out


# effects every implementation has to have as often as specified; helper functions may be split and merged
SOLID = {"log.error", ".write", "yield", "print"}
ORDERED = {".write", "yield", "print"}


def joined(es):
    """Texts written one after the other to the same place are one text."""
    from .pyfront import mk_cat
    out = []
    for e in es:
        if e.args[0] == ".write" and len(e.args) == 3 and dd.show(e.args[1]) == "sys.stdout":
            e = T("eff", "print", e.args[2])
        p = out[-1] if out else None
        if p is not None and e.args[0] in (".write", "print") and p.args[:-1] == e.args[:-1] and len(e.args) == (3 if e.args[0] == ".write" else 2) and not opaque_text(p.args[-1]) and not opaque_text(e.args[-1]):
            out[-1] = T(e.op, *e.args[:-1], mk_cat([p.args[-1], e.args[-1]]))
        elif not (e.args[0] in (".write", "print") and e.args[-1] == C("")):
            out.append(e)
    return out


def opaque_text(t):
    return t.op not in ("c", "cat", "fmt", "v", "call") or t.op == "c" and not isinstance(t.args[0], str)


class Cmp:
    def __init__(self, budget=60000, solid=()):
        self.budget, self.steps, self.solid = budget, 0, set(solid)

    def is_solid(self, n):
        return n in SOLID or n.split(".")[-1] in self.solid

    def nodes(self, a, b, cube=()):
        best = (EQ, None, None, None, None)
        stack = [(a, b, tuple(cube))]
        while stack:
            x, y, cb = stack.pop()
            if x is y:
                continue
            self.steps += 1
            if self.steps > self.budget:
                return (UNK, None, None, None, "comparison budget") if best[0] != DIFF else best
            if x.leaf is not None and y.leaf is not None:
                if not dd.consistent(cb):
                    continue
                v, det = self.terms(x.leaf, y.leaf, cb)
                if v == DIFF:
                    return (DIFF, cb, x.leaf, y.leaf, det)
                if v == UNK:
                    best = (UNK, cb, x.leaf, y.leaf, det)
                continue
            t = dd.top((x, y))
            for v in (False, True):
                nx, ny = dd.cof(x, t, v), dd.cof(y, t, v)
                if nx is ny:
                    continue
                c2 = cb + ((t, v),)
                if t.op not in ("le0", "eq", "isinst") or dd.consistent(c2):
                    stack.append((nx, ny, c2))
        return best

    def can_differ(self, x, y, cube):
        """Is there an assignment on the path with x != y, as far as equalities and linear arithmetic tell?"""
        try:
            e = dd.eq_leaf(x, y)
        except Exception:
            return None
        if e.leaf is not None:
            return e.leaf.args[0] is not True
        return any(dd.consistent(tuple(cube) + tuple(c)) for c, l in dd.cubes(e) if l.args[0] is not True)

    def terms(self, x, y, cube):
        if x is y:
            return EQ, None
        if y.op == "keyerror":
            return UNK, "unspecified"
        if x.op == "undef" and y.op != "undef":
            return DIFF, "never assigned"
        if "undef" in (x.op, y.op):
            return UNK, "undefined"
        if x.op == "c" and y.op == "c":
            a, b = x.args[0], y.args[0]
            if isinstance(a, bool) != isinstance(b, bool) and isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return (EQ, None) if int(a) == int(b) else (DIFF, None)
            return (EQ if type(a) is type(b) and a == b else DIFF), None
        if x.op == "seq" and y.op == "seq":
            return self.seqs(x, y, cube)
        if x.op == "cat" or y.op == "cat":
            return self.cats(x, y, cube)
        if x.op == "set" and y.op == "set":
            if set(x.args) == set(y.args):
                return EQ, None
            if all(a.op in ("c", "enum", "o") for a in x.args + y.args):
                return DIFF, "set"
            return UNK, "set"
        if "setadd" in (x.op, y.op):
            (bx, ax), (by, ay) = added(x), added(y)
            if bx is by:
                if ax == ay:
                    return EQ, None
                # an element one side adds and the other does not: the set need not have had it
                if all(a.op in ("c", "enum", "o", "obj") for a in ax ^ ay):
                    return DIFF, "elements added"
            return UNK, "set"
        if x.op == "dict" and y.op == "dict" and len(x.args) == len(y.args):
            kx, ky = x.args[::2], y.args[::2]
            if set(kx) == set(ky):
                d = dict(zip(ky, y.args[1::2]))
                return self.args([v for v in x.args[1::2]], [d[k] for k in kx], cube)
        if numeric(x) or numeric(y):
            if opaque(x) or opaque(y):
                dx = {t for t in dd.lin_parts(x)[1] if opaque(t)} if x.op in ("lin", "c") else {x}
                dy = {t for t in dd.lin_parts(y)[1] if opaque(t)} if y.op in ("lin", "c") else {y}
                if dx != dy and not (self.same_shape(dx, dy)):
                    return UNK, "uninterpreted number"
            d = self.can_differ(x, y, cube)
            return (DIFF if d else EQ if d is False else UNK), None
        if x.op in CTOR and y.op in CTOR:
            if x.op != y.op:
                return DIFF, f"{x.op}/{y.op}"
            if x.op in ("list", "tuple", "eff") and any(isinstance(a, dd.Term) and a.op == "splice" for a in x.args + y.args):
                if len(x.args) != len(y.args) or [a.op for a in x.args] != [a.op for a in y.args]:
                    return UNK, "splice"
            if len(x.args) != len(y.args):
                return (DIFF if x.op != "dict" or all(k.op in ("c", "enum", "o") for k in x.args[::2] + y.args[::2]) else UNK), f"{x.op} of another size"
            return self.args(x.args, y.args, cube)
        if x.op in SYM and y.op in SYM:
            if opaque(x) or opaque(y):
                if x.op == y.op and len(x.args) == len(y.args):
                    return self.args(x.args, y.args, cube)
                return UNK, "uninterpreted base"
            d = self.can_differ(x, y, cube)
            return (DIFF if d else EQ if d is False else UNK), None
        if (x.op in CTOR and y.op in SYM and not opaque(y)) or (y.op in CTOR and x.op in SYM and not opaque(x)):
            d = self.can_differ(x, y, cube)
            return (EQ if d is False else DIFF), None
        for p, q in ((x, y), (y, x)):
            if p.op in NOT_ID and (q.op in SYM) and p.op not in SYM and not opaque(q):
                return DIFF, None
        if x.op == y.op and x.op in CALLS and len(x.args) == len(y.args):
            return self.args(x.args, y.args, cube)
        return UNK, f"{x.op}/{y.op}"

    def same_shape(self, dx, dy):
        key = lambda t: (t.op, t.args[0] if t.args and not isinstance(t.args[0], (Term, Node)) else None, len(t.args))
        return sorted(map(repr, map(key, dx - dy))) == sorted(map(repr, map(key, dy - dx)))

    def args(self, xs, ys, cube):
        worst = EQ, None
        for a, b in zip(xs, ys):
            if a is b:
                continue
            if isinstance(a, Node) or isinstance(b, Node):
                if isinstance(a, Node) and isinstance(b, Node):
                    v, _, p, q, d = self.nodes(a, b, cube)
                    if v == DIFF:
                        return DIFF, (p, q, d)
                    if v == UNK:
                        worst = UNK, d
                else:
                    worst = UNK, "gated"
                continue
            if not isinstance(a, Term) or not isinstance(b, Term):
                if a != b:
                    return (DIFF if isinstance(a, (int, str)) and isinstance(b, (int, str)) else UNK), (a, b)
                continue
            v, d = self.terms(a, b, cube)
            if v == DIFF:
                return DIFF, (a, b, d) if not isinstance(d, tuple) else d
            if v == UNK:
                worst = UNK, d
        return worst

    def cats(self, x, y, cube):
        a, b = parts(x), parts(y)
        if any(p.op == "pk" for p in a + b):
            return self.packed(a, b, cube)
        lit = lambda ps: "".join(p.args[0] for p in ps if p.op == "c" and isinstance(p.args[0], str))
        sym = lambda ps: [p for p in ps if p.op != "c"]
        if len(a) == len(b) and [p.op == "c" for p in a] == [p.op == "c" for p in b]:
            return self.args(a, b, cube)
        # words over independent unknown texts are the same for all texts only if they are the same words
        if all(p.op == "c" or is_text(p) for p in a + b):
            return (EQ if a == b else DIFF), "text"
        if any(opaque(p) for p in sym(a) + sym(b)):
            return UNK, "text"
        if lit(a) != lit(b) or sym(a) != sym(b):
            return DIFF, "text"
        return UNK, "text"

    def packed(self, a, b, cube):
        """Byte strings built from fixed-width fields: compared byte by byte as far as the widths are known."""
        worst = EQ, None
        a, b = list(a), list(b)
        while a and b:
            p, q = a.pop(0), b.pop(0)
            if p is q:
                continue
            if p.op == "c" and q.op == "c":
                n = min(len(p.args[0]), len(q.args[0]))
                if p.args[0][:n] != q.args[0][:n]:
                    return DIFF, (p, q, "bytes")
                if len(p.args[0]) > n:
                    a.insert(0, C(p.args[0][n:]))
                if len(q.args[0]) > n:
                    b.insert(0, C(q.args[0][n:]))
                continue
            if p.op == "pk" and q.op == "pk":
                if p.args[:2] != q.args[:2]:
                    return DIFF, (p, q, "field layout")
                v, d = self.terms(p.args[2], q.args[2], cube)
                if v == DIFF:
                    return DIFF, (p, q, d)
                if v == UNK:
                    worst = UNK, d
                continue
            if {p.op, q.op} == {"pk", "c"}:
                k, c = (p, q) if p.op == "pk" else (q, p)
                if not opaque(k):
                    return DIFF, (p, q, "field")
            return UNK, "bytes"
        for p in a or b:
            if p.op == "pk" or p.op == "c":
                return (DIFF if worst[0] == EQ else UNK), (p, None, "more bytes")
        return worst

    def seqs(self, x, y, cube):
        bx, ex = flat_seq(x)
        by, ey = flat_seq(y)
        ex, ey = joined(ex), joined(ey)
        if bx is not by:
            return UNK, "effects"
        nx, ny = Counter(e.args[0] for e in ex), Counter(e.args[0] for e in ey)
        odd = (nx - ny) + (ny - nx)
        if odd:
            if all(self.is_solid(n) for n in odd):
                return DIFF, ("effects", dict(nx), dict(ny))
            return UNK, "effects"
        if ex != ey and Counter(ex) == Counter(ey) and not any(e.args[0] in ORDERED for e in ex):
            return UNK, "order of effects"
        if [e.args[0] for e in ex] != [e.args[0] for e in ey]:
            return UNK, "order of effects"
        worst = EQ, None
        for a, b in zip(ex, ey):
            v, d = self.terms(a, b, cube)
            if v == DIFF:
                return DIFF, (a, b, d)
            if v == UNK:
                worst = UNK, d
        return worst


def support(n):
    out, seen, work = set(), set(), [n]
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            if x.leaf is None:
                out.add(x.atom)
                work += [x.hi, x.lo]
    return out


def settled(c, x, y, cube):
    """Conditions on uninterpreted operations that only one side tests may be two ways of saying the same thing."""
    sx, sy = support(x), support(y)
    ox, oy = {a for a in sx - sy if opaque(a)}, {a for a in sy - sx if opaque(a)}
    used = {a for a, _ in cube}
    if not (ox & used or oy & used):
        return True
    if not ox or not oy:
        return True
    # the same operation with other operands?
    if not c.same_shape(ox, oy):
        return False
    for a in ox:
        if not any(c.terms(a, b, ())[0] == DIFF for b in oy):
            return False
    return True


def cells(ip, a, b, skip=()):
    out = []
    for st in (a, b):
        for k in st.d:
            if k == "$io":
                if k not in out:
                    out.append(k)
                continue
            if k[0] in ("at", "ct") and k not in out and not any(isinstance(x, Term) and dd.contains(x, lambda t: t.op in ("alloc", "tmpcar", "tmpiv", "clos")) for x in k[1:]):
                out.append(k)
    return [k for k in out if not (k[0] == "at" and k[2] in skip)]


def name(k):
    if k == "$io":
        return "effects"
    return f"{dd.show(k[1])[:60]}.{k[2]}" if k[0] == "at" else dd.show(k[1])[:60]


def compare(ip, ra, sa, rb, sb, ignore=(), budget=60000, solid=()):
    """[(what, verdict, cube, x, y, detail)]"""
    ok = dd.not_(dd.or_(ip.get(sa, "$trunc"), ip.get(sb, "$trunc")))
    items = [("result", ip.val(ra, sa), ip.val(rb, sb))]
    for k in cells(ip, sa, sb, ignore):
        items.append((name(k), ip.val(ip.get(sa, k), sa), ip.val(ip.get(sb, k), sb)))
    out = []
    for nm, x, y in items:
        if ok is not dd.TRUE:
            x, y = dd.ite(ok, x, dd.NONE), dd.ite(ok, y, dd.NONE)
        if x is y:
            out.append((nm, EQ, None, None, None, None))
            continue
        c = Cmp(budget, solid)
        v, cube, p, q, det = c.nodes(x, y)
        if v == DIFF and not settled(c, x, y, cube):
            v, det = UNK, "conditions on uninterpreted operations"
        out.append((nm, v, cube, p, q, det))
    return out
