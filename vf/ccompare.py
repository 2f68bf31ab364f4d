"""Comparison of two gated summaries of the same function (the repository's and the specified one).

A difference counts only when it is certain: the path condition must be satisfiable (linear arithmetic over the
atoms), and the two leaves must be able to take different values under it.  Terms the analysis does not
interpret never count as different on their own.
"""
from __future__ import annotations
import itertools
from . import dd, cfront, ceval
from .dd import T, C, leaf, const, Term, Node

EQ, DIFF, UNK = "equal", "differ", "unknown"
W32 = 1 << 32
OPAQUE = {"fix", "first", "any", "cmod", "smod", "cdiv", "shr", "band", "bor", "bxor", "op<<", "pure", "exitidx", "out", "scan", "bits", "undef"}
DATA = {"eff", "seq", "seq0", "struct", "ref", "conv", "str", "F", "E", "G", "L", "at", "sub", "gobj", "pun", "c", "vw", "v", "scan",
        "tuple", "list", "res", "res_out", "out", "f+", "f-", "f*", "f/", "fill", "pure", "chr", "ld", "bits", "call", "fneg"}


def unwrap(t):
    """A wrapped difference as a linear form."""
    if t.op == "wrap":
        return dd.lin_add(unwrap(t.args[0]), C(W32))
    if t.op == "lin":
        k, d = dd.lin_parts(t)
        r = C(k)
        for x, c in d.items():
            r = dd.lin_add(r, dd.lin_scale(unwrap(x) if x.op == "wrap" else x, c))
        return r
    return t


def numeric(t):
    return t.op in ("lin", "ld", "lo31", "wrap", "uval", "fval", "msb", "len", "ivar", "rdt", "v", "cmod", "pure", "scan", "smod") or (
        t.op == "c" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool))


def terms_in(cube, *more):
    out, seen, work = [], set(), [a for a, _ in cube] + list(more)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Term):
            out.append(x)
            work += [a for a in x.args if isinstance(a, (Term, Node))]
        elif x.leaf is not None:
            work.append(x.leaf)
        else:
            work += [x.atom, x.hi, x.lo]
    return out


class Cmp:
    def __init__(self, factfn=None, limit=40, budget=60000):
        self.factfn = factfn
        self.limit = limit
        self.budget = budget
        self.steps = 0
        self.unknown = []
        self.fmemo, self.umemo = {}, {}

    def tfacts(self, t):
        """Facts about the numbers inside one term, and whether it mentions a wrapped difference."""
        r = self.fmemo.get(t)
        if r is None:
            out, wrap = [], False
            for x in terms_in((), t):
                if x.op in ("lo31", "rdt"):
                    out.append((-cfront.LOW, {x: 1}))
                wrap = wrap or x.op == "wrap"
                if self.factfn:
                    out += self.factfn(x)
            r = self.fmemo[t] = out, wrap
        return r

    def facts(self, cube, *more):
        out = []
        for t in itertools.chain((a for a, _ in cube), more):
            out += self.tfacts(t)[0]
        return out

    def unwrapped(self, a, v):
        """The literal with wrapped differences read as integers: [(atom, bool)], or None when it is false."""
        if (a, v) not in self.umemo:
            r = [(a, v)]
            if a.op in ("le0", "eq") and self.tfacts(a)[1]:
                l = dd.lin_add(a.args[0], a.args[1], -1) if a.op == "eq" and numeric(a.args[1]) else a.args[0]
                l = unwrap(l)
                n = dd.le0(l) if a.op == "le0" else dd.eq_leaf(l, C(0)) if numeric(a.args[1]) else None
                if n is not None and n.leaf is not None:
                    r = None if bool(n.leaf.args[0]) != v else []
                elif n is not None and n.hi.leaf is not None:
                    r = [(n.atom, v if n.hi.leaf.args[0] is True else not v)]
            self.umemo[a, v] = r
        return self.umemo[a, v]

    def sat(self, cube, *more, extra=()):
        cb = []
        for a, v in cube:
            r = self.unwrapped(a, v)
            if r is None:
                return False
            cb += r
        return dd.consistent(cb, tuple(self.facts(cube, *more)) + tuple(extra))

    # ------------------------------------------------ nodes
    def nodes(self, a, b, cube=(), first=True):
        """(verdict, cube, x, y, detail) of the worst difference of two gated values."""
        best = (EQ, None, None, None, None)
        stack = [(a, b, tuple(cube))]
        seen = set()
        while stack:
            x, y, cb = stack.pop()
            if x is y:
                continue
            self.steps += 1
            if self.steps > self.budget:
                return (UNK, None, None, None, "comparison budget") if best[0] != DIFF else best
            if x.leaf is not None and y.leaf is not None:
                if not self.sat(cb, x.leaf, y.leaf):
                    continue
                v, det = self.terms(x.leaf, y.leaf, cb)
                if v == DIFF:
                    return (DIFF, cb, x.leaf, y.leaf, det)
                if v == UNK:
                    self.unknown.append((cb, x.leaf, y.leaf, det))
                    best = (UNK, cb, x.leaf, y.leaf, det)
                continue
            t = dd.top((x, y))
            for v in (False, True):
                c2 = cb + ((t, v),)
                nx, ny = dd.cof(x, t, v), dd.cof(y, t, v)
                if nx is ny:
                    continue
                if (t.op not in ("le0", "eq")) or self.sat(c2):
                    stack.append((nx, ny, c2))
        return best

    # ------------------------------------------------ terms
    def num_diff(self, x, y, cube):
        d = unwrap(dd.lin_add(unwrap(x), unwrap(y), -1))
        k, ds = dd.lin_parts(d)
        if not ds:
            return DIFF if k != 0 else EQ
        pos = (1 - k, {t: -c for t, c in ds.items()})     # d >= 1
        neg = (k + 1, dict(ds))                            # d <= -1
        if not (self.sat(cube, x, y, extra=[pos]) or self.sat(cube, x, y, extra=[neg])):
            return EQ
        return DIFF

    def terms(self, x, y, cube):
        if x is y:
            return EQ, None
        if x.op == "undef" and y.op != "undef":
            return DIFF, "never assigned"
        if "undef" in (x.op, y.op):
            return UNK, "undefined"
        if x.op == "c" and y.op == "c":
            if isinstance(x.args[0], (int, bool)) and isinstance(y.args[0], (int, bool)):
                return (EQ if int(x.args[0]) == int(y.args[0]) else DIFF), None
            return (EQ if x.args[0] == y.args[0] else DIFF), None
        if x.op == "vw" or y.op == "vw":
            if x.op != y.op:
                x, y = cfront.num(x), cfront.num(y)
                return self.num_terms(x, y, cube)
            if x.args[0] != y.args[0]:
                return DIFF, "truth value"
            return self.terms(x.args[1], y.args[1], cube)
        if (x.op in ("st", "mem0", "cst", "fill")) and (y.op in ("st", "mem0", "cst", "fill")):
            return self.chains(x, y, cube)
        if x.op in ("seq", "seq0") and y.op in ("seq", "seq0"):
            return self.seqs(x, y, cube)
        if numeric(x) and numeric(y):
            return self.num_terms(x, y, cube)
        if x.op == y.op and len(x.args) == len(y.args) and x.op in DATA:
            worst = EQ, None
            for a, b in zip(x.args, y.args):
                if isinstance(a, Node) or isinstance(b, Node):
                    if a is not b:
                        worst = UNK, x.op
                    continue
                if not isinstance(a, Term) or not isinstance(b, Term):
                    if a != b:
                        return DIFF, f"{a} / {b}"
                    continue
                v, d = self.terms(a, b, cube)
                if v == DIFF:
                    return DIFF, d
                if v == UNK:
                    worst = UNK, d
            return worst
        if x.op == y.op:
            return UNK, x.op
        if x.op in DATA and y.op in DATA:
            # a constant against a symbolic value, or two different constructors
            if "ld" in (x.op, y.op) or "res" in (x.op, y.op):
                return DIFF, None
            return DIFF, None
        return UNK, f"{x.op}/{y.op}"

    def num_terms(self, x, y, cube):
        """Numbers: linear arithmetic; opaque base terms must be the same on both sides to be decided."""
        _, dx = dd.lin_parts(unwrap(x))
        _, dy = dd.lin_parts(unwrap(y))
        ox = {t for t in dx if self.opaque(t)}
        oy = {t for t in dy if self.opaque(t)}
        if ox != oy:
            if len(ox) == 1 and len(oy) == 1:
                a, b = next(iter(ox)), next(iter(oy))
                if a.op == b.op and a.op in ("ld", "rdt", "scan", "pure"):
                    return self.terms_args(a, b, cube)
            return UNK, "opaque numbers"
        return self.num_diff(x, y, cube), None

    def terms_args(self, a, b, cube):
        worst = EQ
        for p, q in zip(a.args, b.args):
            if isinstance(p, Term) and isinstance(q, Term):
                v, _ = self.terms(p, q, cube)
                if v == DIFF:
                    return DIFF, None
                if v == UNK:
                    worst = UNK
            elif p != q:
                return DIFF, None
        return worst, None

    def opaque(self, t):
        if t.op in OPAQUE:
            return True
        if t.op == "ld":
            m = t.args[0]
            return m.op not in ("mem0", "cst", "st") or any(self.opaque(a) for a in terms_in([], t) if a is not t and a.op in OPAQUE)
        return False

    # ------------------------------------------------ memory
    def chain(self, m):
        out = []
        while m.op == "st":
            out.append((m.args[1], m.args[2]))
            m = m.args[0]
        return m, out

    def loc_same(self, l1, l2, cube):
        """True / False / None (depends)."""
        if l1 is l2:
            return True
        e = cfront.loc_eq(l1, l2)
        if e.leaf is not None:
            return bool(e.leaf.args[0])
        can = any(self.sat(tuple(cube) + tuple(c)) for c, l in dd.cubes(e) if l.args[0] is True)
        cannot = any(self.sat(tuple(cube) + tuple(c)) for c, l in dd.cubes(e) if l.args[0] is not True)
        if can and not cannot:
            return True
        if cannot and not can:
            return False
        return None

    def chains(self, x, y, cube):
        bx, sx = self.chain(x)
        by, sy = self.chain(y)
        if bx is not by:
            if bx.op == "fill" and by.op == "fill":
                v, d = self.terms_args(bx, by, cube)
                if v != EQ:
                    return v, "filled memory"
            else:
                return UNK, "memory"
        worst = EQ, None
        locs = []
        for l, _ in sx + sy:
            if l not in locs:
                locs.append(l)
        for l in locs:
            vx, vy = self.final(sx, bx, l, cube), self.final(sy, by, l, cube)
            if vx is None or vy is None:
                worst = UNK, "aliasing"
                continue
            v, d = self.terms(vx, vy, cube)
            if v == DIFF:
                return DIFF, (l, vx, vy)
            if v == UNK:
                worst = UNK, (l, vx, vy)
        return worst

    def final(self, stores, base, l, cube):
        for loc, val in stores:      # most recent first
            s = self.loc_same(loc, l, cube)
            if s is True:
                return val
            if s is None:
                return None
        t = cfront.load_leaf(base, l)
        return t.leaf if t.leaf is not None else None

    def seqs(self, x, y, cube):
        def flat(s):
            out = []
            while s.op == "seq" and s.args:
                out.append(s.args[1])
                s = s.args[0]
            return s, out[::-1]
        bx, ex = flat(x)
        by, ey = flat(y)
        if bx is not by:
            return UNK, "effects"
        worst = EQ, None
        for a, b in zip(ex, ey):
            v, d = self.terms(a, b, cube)
            if v == DIFF:
                return DIFF, (a, b)
            if v == UNK:
                worst = UNK, d
        if len(ex) != len(ey):
            k = min(len(ex), len(ey))
            if worst[0] == EQ:
                return DIFF, ((ex + [None] * len(ey))[k], (ey + [None] * len(ex))[k])
            return UNK, "different number of effects"
        return worst


def region_keys(*sts):
    out = []
    for st in sts:
        for k in st.d:
            if (k[0] == "reg" or k == "$io") and k not in out:
                out.append(k)
    return out


INTERPRETED = OPAQUE | {"flt", "fle", "feq", "f+", "f-", "f*", "f/", "fneg", "bnot", "trunc", "strunc", "pun", "mul", "res", "truthy_"}


def interpreted(t):
    return any(x.op in INTERPRETED or (x.op == "b" and x.args[0] in INTERPRETED) for x in terms_in((), t))


def support(n):
    out, seen, work = set(), set(), [n]
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            if x.leaf is None:
                out.add(x.atom)
                work += [x.hi, x.lo]
    return out


def shaky(cube, p, q, x, y, det):
    """Does the difference rest on interpreted operations the two sides do not share?"""
    sx, sy = support(x), support(y)
    one = (sx ^ sy)
    if any(a in one and interpreted(a) for a, _ in cube):
        return True
    vs = det[-2:] if isinstance(det, tuple) and len(det) >= 2 else (p, q)
    return any(isinstance(v, Term) and interpreted(v) for v in vs)


FREE = {"res", "scan", "out", "pure", "rdready", "rdbit", "progressed", "bits", "fn", "scqread", "res_out", "loop"}


def free(n):
    """The uninterpreted results a value rests on."""
    out, seen, work = set(), set(), [n]
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if isinstance(t, dd.Node):
            work += [t.leaf] if t.leaf is not None else [t.atom, t.hi, t.lo]
            continue
        if t.op in FREE:
            out.add(t)
        work += [a for a in (dd.lin_parts(t)[1] if t.op == "lin" else t.args) if isinstance(a, (Term, dd.Node))]
    return out


def compare(ipa, a, ipb, b, assume=None, factfn=None, ignore=(), rv=True, budget=60000):
    """a, b: (rv Node, St) of the repository's and of the specified function.  Returns list of
    (what, verdict, cube, x, y, detail)."""
    out = []
    ra, sa = a
    rb, sb = b
    ok = dd.not_(dd.or_(ipa.get(sa, "$trunc"), ipb.get(sb, "$trunc")))
    if assume is not None:
        ok = dd.and_(ok, assume)
    items = [("result", ra, rb)] if rv else []
    for k in region_keys(sa, sb):
        name = "effects" if k == "$io" else k[1]
        if name in ignore:
            continue
        items.append((name, ipa.get(sa, k), ipb.get(sb, k)))
    for name, x, y in items:
        if x is y:
            out.append((name, EQ, None, None, None, None))
            continue
        if ok is not dd.TRUE:
            x, y = dd.ite(ok, x, dd.NONE), dd.ite(ok, y, dd.NONE)
        c = Cmp(factfn, budget=budget)
        v, cube, p, q, det = c.nodes(x, y)
        if v == DIFF and shaky(cube, p, q, x, y, det):
            try:
                if ceval.witness(x, y, ok, 400) is None and ceval.guided(x, y, ok, cube) is None:
                    v, det = UNK, "interpreted operations differ, no witness"
            except ceval.CannotEval as ex:
                v, det = UNK, f"interpreted operations differ ({ex})"
        elif v == UNK and free(x) == free(y):
            # both sides rest on the same free symbols: an interpretation that tells them apart settles it
            try:
                if ceval.witness(x, y, ok, 400) is not None:
                    v = DIFF
            except ceval.CannotEval:
                pass
        out.append((name, v, cube, p, q, det))
    return out
