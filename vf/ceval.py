"""Concrete evaluation of gated summaries under pseudo-random interpretations of the free symbols.

Used only to confirm a difference between two summaries that involves interpreted operations (floating point,
remainder, bit operations): the difference is reported only when some interpretation shows it."""
from __future__ import annotations
import math
import random
import struct
from . import dd
from .dd import Term, Node, lin_parts

M32 = (1 << 32) - 1
INTS = [0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 35, 64]
BYTES = [0, 1, 2, 3, 5, 8, 127, 128, 200, 254, 255]
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 0.00001, 0.00002, -0.00001, 1.00001, 3.25, -2.5, 0.000005]


MATH = {"fabs": lambda x: abs(float(x)), "abs": abs, "labs": abs, "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)),
        "sqrt": lambda x: math.sqrt(x), "pow": lambda x, y: math.pow(x, y), "fmod": lambda x, y: math.fmod(x, y)}


class CannotEval(Exception):
    pass


class Eval:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.sym = {}
        self.touched = set()
        self.pool = INTS

    def rnd(self, key, kind="i"):
        self.touched.add((key, kind))
        r = self.sym.get((key, kind))
        if r is None:
            g = random.Random(repr((self.seed, key, kind)))
            r = self.sym[key, kind] = g.choice(FLOATS) if kind == "f" else g.random() < .5 if kind == "b" else g.choice(BYTES) if kind == "y" else g.choice(self.pool)
        return r

    def node(self, n):
        while n.leaf is None:
            n = n.hi if self.boolean(n.atom) else n.lo
        return n.leaf

    def boolean(self, a):
        op, s = a.op, a.args
        if op == "truthy":
            return bool(self.t(s[0]))
        if op == "eq":
            return self.t(s[0]) == self.t(s[1])
        if op == "le0":
            return self.t(s[0]) <= 0
        if op == "b":
            x, y = self.t(s[1]), self.t(s[2])
            if s[0] in ("flt", "fle", "feq"):
                x, y = float(x), float(y)
                return x < y if s[0] == "flt" else x <= y if s[0] == "fle" else x == y
            raise CannotEval(s[0])
        raise CannotEval(op)

    def t(self, t):
        if isinstance(t, Node):
            return self.t(self.node(t))
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.t1(t)
        return r

    def t1(self, t):
        op, a = t.op, t.args
        if op == "c":
            return int(a[0]) if isinstance(a[0], bool) else a[0]
        if op == "lin":
            k, d = lin_parts(t)
            return k + sum(c * self.t(x) for x, c in d.items())
        if op == "mul":
            return self.t(a[0]) * self.t(a[1])
        if op == "vw":
            return (self.t(a[1]) & 0x7FFFFFFF) | (0x80000000 if a[0] else 0)
        if op == "lo31":
            return self.t(a[0]) & 0x7FFFFFFF
        if op == "msb":
            return self.t(a[0]) & 0x80000000
        if op in ("word", "uval", "fval"):
            if isinstance(a[0], Term) and a[0].op == "v":       # a parameter: any value of its type
                return self.rnd((op, a[0].args), "f" if op == "fval" else "i")
            return self.t(a[0])
        if op == "wrap":
            return self.t(a[0]) & M32
        if op == "trunc":
            return self.t(a[1]) & ((1 << a[0]) - 1)
        if op == "strunc":
            x = self.t(a[1]) & ((1 << a[0]) - 1)
            return x - (1 << a[0]) if x >> (a[0] - 1) else x
        if op in ("cmod", "smod", "cdiv"):
            x, y = self.t(a[0]), self.t(a[1])
            if not y:
                raise CannotEval("division by zero")
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if op == "cdiv" else x - q * y
        if op in ("band", "bor", "bxor"):
            x, y = self.t(a[0]), self.t(a[1])
            return x & y if op == "band" else x | y if op == "bor" else x ^ y
        if op == "bnot":
            return ~self.t(a[0])
        if op == "shr":
            return self.t(a[0]) >> self.t(a[1])
        if op == "op<<":
            return self.t(a[0]) << min(self.t(a[1]), 64)
        if op in ("f+", "f-", "f*", "f/"):
            x, y = float(self.t(a[0])), float(self.t(a[1]))
            if op == "f/":
                if not y:
                    raise CannotEval("division by zero")
                return x / y
            return x + y if op == "f+" else x - y if op == "f-" else x * y
        if op == "fneg":
            return -float(self.t(a[0]))
        if op == "ld":
            return self.load(a[0], self.t(a[1]))
        if op == "pun" and isinstance(a[0], str) and a[0].endswith(("i", "f")):
            x = self.t(a[1])
            return int.from_bytes(struct.pack("<d", float(x)), "little") if a[0].endswith("f") else int(x) & M32
        if op == "unpun" and isinstance(a[0], str) and a[0].endswith(("i", "f")):
            x = self.t(a[1])
            if not isinstance(x, int):
                raise CannotEval("unpun")
            if a[0].endswith("f"):
                return struct.unpack("<d", (x & ((1 << 64) - 1)).to_bytes(8, "little"))[0]
            x &= M32
            return x - (1 << 32) if x >> 31 else x
        if op == "pun":
            x = self.t(a[1])
            return x if not isinstance(a[0], str) else self.rnd(("pun", a[0], x), "f" if a[0] in ("f", "double") else "i")
        if op == "pure" and a[0] in MATH:
            try:
                return MATH[a[0]](*(self.t(x) for x in a[1:]))
            except (ValueError, OverflowError, ZeroDivisionError) as e:
                raise CannotEval(f"{a[0]}: {e}")
        if op in ("res", "scan", "out", "pure", "rdready", "rdbit", "progressed", "bits"):
            v = tuple(self.t(x) for x in a)
            return self.rnd((op, v), "b" if op in ("rdready", "rdbit", "progressed") else "i")
        if op == "undef":       # an uninitialised local: any value
            return self.rnd((op, a))
        if op == "rdt":
            return self.rnd((op, self.t(a[0])))
        if op in dd.BOOLISH:
            return int(self.boolean(t))
        if op in ("seq", "eff", "struct", "F", "E", "G", "L", "at", "sub", "gobj", "str", "conv", "ref", "scqread", "sym", "v", "g", "chr", "undef",
                  "arg", "tuple", "list", "fn", "res_out") or not any(isinstance(x, (Term, Node)) for x in a):
            v = (op,) + tuple(self.t(x) for x in a)
            if op in ("sym", "v", "arg") and not any(isinstance(x, (Term, Node)) for x in a):
                return v
            return v
        raise CannotEval(op)

    def load(self, m, loc):
        while m.op == "st":
            if self.t(m.args[1]) == loc:
                return self.t(m.args[2])
            m = m.args[0]
        if m.op == "cst":
            return self.t(m.args[-1])
        if m.op != "mem0":
            raise CannotEval(m.op)
        reg = m.args[0]
        if reg == "r2u2_value_t[]":
            f = self.rnd(("un", reg, loc), "f")
            return int.from_bytes(struct.pack("<d", f), "little") if self.rnd(("isf", loc), "b") else self.rnd(("mem", reg, loc), "i")
        if reg.startswith("unsigned char"):
            return self.rnd(("mem", reg, loc), "y")
        kind = "f" if reg.endswith(".f") or reg in ("double[]", "float[]") else "b" if reg == "bool[]" else "i"
        return self.rnd(("mem", reg, loc), kind)

    def memory(self, m):
        """Written cells of a store chain."""
        out = {}
        while m.op == "st":
            out.setdefault(self.t(m.args[1]), m.args[2])
            m = m.args[0]
        return m, {k: self.t(v) for k, v in out.items()}


MEM = ("st", "mem0", "cst")


def differ(e, x, y, ok):
    """Do the two gated values differ under this interpretation?"""
    if e.node(ok).args[0] is not True:
        return False
    a, b = e.node(x), e.node(y)
    if a is b:
        return False
    if a.op in MEM and b.op in MEM:
        ba, ma = e.memory(a)
        bb, mb = e.memory(b)
        if ba is not bb:
            raise CannotEval("memory")
        return any((ma[k] if k in ma else e.load(ba, k)) != (mb[k] if k in mb else e.load(bb, k)) for k in set(ma) | set(mb))
    return e.t(a) != e.t(b)


def constants(atoms):
    out, seen, work = set(), set(), list(atoms)
    while work:
        t = work.pop()
        if isinstance(t, (Term, Node)) and t not in seen:
            seen.add(t)
            if isinstance(t, Node):
                work += [t.leaf] if t.leaf is not None else [t.atom, t.hi, t.lo]
            elif t.op == "c":
                if isinstance(t.args[0], int):
                    out.add(int(t.args[0]))
            elif t.op == "lin":
                k, d = lin_parts(t)
                out |= {abs(k)} if k == int(k) else set()
                work += list(d)
            else:
                work += list(t.args)
    return {int(c) for c in out if c < 1 << 20}


def guided(x, y, ok, cube, tries=60, steps=150):
    """Search for an interpretation on the given path: repeatedly resample a symbol of a literal that does not hold yet."""
    pool = INTS + [c + d for c in sorted(constants(a for a, _ in cube)) for d in (0, 0, 1, -1) if c + d >= 0]
    err = None
    for s in range(tries):
        g = random.Random(s)
        e = Eval(("g", s))
        e.pool = pool
        for _ in range(steps):
            bad = []
            for a, want in cube:
                e.memo, e.touched = {}, set()
                try:
                    if e.boolean(a) != want:
                        bad.append((a, want, set(e.touched)))
                except CannotEval as ex:
                    err = ex
                except (OverflowError, TypeError, ValueError):
                    bad.append((a, want, set(e.touched)))
            if not bad:
                e.memo = {}
                try:
                    if differ(e, x, y, ok):
                        return s
                except CannotEval as ex:
                    err = ex
                except (OverflowError, TypeError, ValueError):
                    pass
                every = sorted(e.sym, key=repr)
                if not every:
                    break
                k = g.choice(every)
            else:
                a, want, t = g.choice(bad)
                if not t:
                    break
                k = g.choice(sorted(t, key=repr))
            e.sym[k] = g.choice(FLOATS) if k[1] == "f" else g.random() < .5 if k[1] == "b" else g.choice(pool)
    if err is not None:
        raise err
    return None


def witness(x, y, ok, n=3000):
    """A seed under which the two gated values differ while ok holds; None when no seed shows it; CannotEval otherwise."""
    bad = 0
    for s in range(n):
        e = Eval(s)
        try:
            if differ(e, x, y, ok):
                return s
        except CannotEval:
            bad += 1
            if bad > 200 and bad > s * .9:
                raise
        except (OverflowError, TypeError, ValueError):
            bad += 1
    return None
