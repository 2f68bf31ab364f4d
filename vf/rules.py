"""Soundness of expression-replacement passes.

A pass is a loop that replaces expression nodes.  The dataflow analysis gives, for the body of the loop, the
table  guard -> (replaced node, replacement).  Every entry is a rewrite rule over all expressions matching the
guard; the rule is instantiated with opaque propositions for the operands, all small intervals and arities the
guard admits, and both sides are compared as decision diagrams over (time, proposition).
"""
from __future__ import annotations
import itertools
from . import dd, mltl, teval
from .dd import T, C, Term, leaf
from .teval import Ev, M, Undecided, Crash
from .pyfront import Interp

TEMPO = mltl.TEMPORAL
BOOLOPS = dict(mltl.BOOL_ARITY)
ALLKINDS = list(mltl.NARY) + list(BOOLOPS) + list(TEMPO) + list(mltl.ARITH_NARY)


class Rule:
    def __init__(self, fn, cube, target, new, base, where):
        self.fn, self.cube, self.target, self.new, self.base, self.where = fn, cube, target, new, base, where


def analyse(proj, mod, fn, opaque=()):
    ip = Interp(proj)
    stop = {"cpt.Expression.replace"} | set(opaque)
    ip.policy = lambda fq, fd: fq not in stop
    ip.method_cls["replace"] = "Expression"
    ip.method_cls["copy_attrs"] = "Expression"
    rv, st = ip.run(mod, fn)
    return ip, rv, st


def seq_effects(l):
    out = []
    while l.op == "seq" and len(l.args) == 2:
        out.append(l.args[1])
        l = l.args[0]
    return out[::-1], l


def loop_tables(ip):
    """(LoopInfo, element term, gated effects of one iteration)."""
    for L in ip.loops:
        io = L.upd.get("$io")
        if io is None or L.seq is None:
            continue
        el = ip.elem(L.seq, L.iv)
        yield L, el, io


def replacements(proj, mod, fn):
    ip, rv, st = analyse(proj, mod, fn)
    rules, loops = [], []
    for L, el, io in loop_tables(ip):
        if el.leaf is None:
            continue
        for cube, l in dd.cubes(io):
            effs, _ = seq_effects(l)
            for e in effs:
                if e.op == "eff" and e.args[0].endswith(".replace") and len(e.args) >= 3:
                    rules.append(Rule(fn, cube, e.args[1], e.args[2], el.leaf, ip.where.get(e)))
        if any(r.base is el.leaf for r in rules):
            loops.append((L, el.leaf, io))
    return ip, rules, loops


def mentions(terms, sub):
    return any(dd.contains(t, lambda x: x is sub) for t in terms)


def child_term(path, k):
    return T("idx", T("attr", path, "children"), C(k))


class Builder:
    """All small models of the base expression that satisfy the guard."""

    def __init__(self, proj, rule, arities=(2, 3), shapes=False):
        self.p, self.r = proj, rule
        self.terms = [a for a, _ in rule.cube] + [rule.new, rule.target]
        big = [k for k in self.numbers() if 2 < k <= 8]
        self.arities = tuple(sorted(set(arities) | {k + d for k in big for d in (1, 2, 3)}))[:9] if big and len(arities) > 1 else arities
        self.shapes = shapes

    def numbers(self):
        """Whole numbers the guard and the replacement mention: the places where behaviour may change."""
        ks = set()

        def see(x):
            if isinstance(x, Term) and x.op == "c" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                ks.add(abs(x.args[0]))
            return False
        for t in self.terms:
            dd.contains(t, see)
        return ks

    def facts(self, path):
        pc, nc, pk, nk = set(), set(), None, set()
        for a, v in self.r.cube:
            if a.op == "cls" and a.args[0] is path:
                (pc if v else nc).add(a.args[1])
            if a.op == "eq" and a.args[0].op == "attr" and a.args[0].args[0] is path and a.args[0].args[1] == "operator" \
                    and a.args[1].op == "enum":
                if v:
                    pk = a.args[1].args[1]
                else:
                    nk.add(a.args[1].args[1])
        return pc, nc, pk, nk

    def kinds(self, path, root):
        pc, nc, pk, nk = self.facts(path)
        if pk:
            return [pk] if "Constant" not in pc else []
        if "Constant" in pc:
            return ["const"]
        if root:
            ks = [k for k in ALLKINDS if k not in nk]
            if "TemporalOperator" in pc:
                ks = [k for k in ks if k in TEMPO]
            if "TemporalOperator" in nc:
                ks = [k for k in ks if k not in TEMPO]
            return ks
        return ["opaque"]

    def build(self, path, root=True, depth=0):
        """List of thunks producing fresh models (with shared counters)."""
        out = []
        for k in self.kinds(path, root):
            if k == "opaque" or depth > 3:
                out.append(("p",))
            elif k == "const":
                out += [("c", True), ("c", False)]
            else:
                if k in mltl.NARY or k in mltl.ARITH_NARY:
                    ars = self.arities
                elif k in TEMPO:
                    ars = (TEMPO[k],)
                elif k in BOOLOPS:
                    ars = (BOOLOPS[k],)
                else:
                    continue
                for n in ars:
                    subs = []
                    for i in range(n):
                        c = child_term(path, i)
                        alts = self.build(c, False, depth + 1)
                        if self.shapes and root and alts == [("p",)]:
                            other = "LOGICAL_OR" if k != "LOGICAL_OR" else "LOGICAL_AND"
                            if k in mltl.NARY or k in mltl.ARITH_NARY:
                                alts = [("p",), ("o", k, [("p",), ("p",)])]
                                if k in mltl.NARY:
                                    alts.append(("o", other, [("p",), ("p",)]))
                        subs.append(alts)
                    for combo in itertools.product(*subs):
                        out.append(("o", k, list(combo)))
        return out

    def instantiate(self, sk, path, env, cnt, temps):
        if sk[0] == "p":
            m = M(None, prop=cnt[0])
            cnt[0] += 1
        elif sk[0] == "c":
            m = M("Constant", value=sk[1])
        else:
            ch = [self.instantiate(s, child_term(path, i) if path is not None else None, env, cnt, temps)
                  for i, s in enumerate(sk[2])]
            m = M("TemporalOperator" if sk[1] in TEMPO else "Operator", kind=sk[1], children=ch)
            if sk[1] in TEMPO:
                temps.append(m)
                m.lb = m.ub = 0
        if path is not None:
            env[path] = m
        return m

    def unify(self, env):
        """Make operands that the guard says are syntactically equal the same."""
        for a, v in self.r.cube:
            if a.op == "eq" and v:
                x, y = a.args
                x, y = [z.args[1] if z.op == "call" and z.args[0] in ("str", "repr") and len(z.args) == 2 else z for z in (x, y)]
                mx, my = env.get(x), env.get(y)
                if isinstance(mx, M) and isinstance(my, M) and mx is not my:
                    if mx.prop is not None and my.prop is not None:
                        my.prop = mx.prop
                    elif mx.prop is not None or my.prop is not None:
                        a_, b_ = (mx, my) if mx.prop is not None else (my, mx)
                        for f in ("cls", "kind", "children", "lb", "ub", "value", "prop"):
                            setattr(a_, f, getattr(b_, f))

    def consts(self):
        ks = set()
        for a, _ in self.r.cube:
            if a.op in ("le0", "eq"):
                for t in a.args:
                    if t.op == "lin" and isinstance(t.args[0], int):
                        ks.add(abs(t.args[0]))
                    if t.op == "c" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
                        ks.add(abs(t.args[0]))
        return {k for k in ks | {k for k in self.numbers() if k > 2} if k <= 24}


def to_formula(m):
    if not isinstance(m, M):
        raise Undecided(f"not an expression: {m!r}")
    if m.prop is not None:
        return ("p", m.prop)
    if m.cls == "Constant" or (m.value is not None and m.kind is None):
        if isinstance(m.value, bool):
            return ("c", m.value)
        raise Undecided("non-boolean constant")
    if m.kind in TEMPO:
        if not (isinstance(m.lb, int) and isinstance(m.ub, int)):
            raise Undecided("interval")
        if m.lb < 0 or m.ub < m.lb:
            raise BadInterval(f"interval [{m.lb},{m.ub}]")
        return ("t", m.kind, m.lb, m.ub, tuple(to_formula(c) for c in m.children))
    if m.kind in BOOLOPS or m.kind in mltl.NARY:
        return ("o", m.kind, tuple(to_formula(c) for c in m.children))
    if m.kind in mltl.ARITH_NARY:
        return ("a", m.kind, tuple(to_formula(c) for c in m.children))
    raise Undecided(f"operator {m.kind}")


class BadInterval(Exception):
    pass


def is_arith(f):
    return f[0] == "a"


def poly(f):
    """Normal form of a sum/product of opaque numbers: {monomial: coefficient}."""
    if f[0] == "p":
        return {(f[1],): 1}
    xs = [poly(c) for c in f[2]]
    r = {(): 0} if f[1] == "ARITHMETIC_ADD" else {(): 1}
    for x in xs:
        if f[1] == "ARITHMETIC_ADD":
            n = dict(r)
            for k, v in x.items():
                n[k] = n.get(k, 0) + v
        else:
            n = {}
            for k, v in r.items():
                for j, w in x.items():
                    q = tuple(sorted(k + j))
                    n[q] = n.get(q, 0) + v * w
        r = n
    return {k: v for k, v in r.items() if v}


def same(a, b, sem):
    if is_arith(a) or is_arith(b):
        if not (is_arith(a) or a[0] == "p") or not (is_arith(b) or b[0] == "p"):
            raise Undecided("mixed")
        return (poly(a) == poly(b)), None
    return mltl.equivalent(a, b, sem)


def bounds(n, consts):
    if n == 0:
        return [()]
    vals = {1: [0, 1, 2, 3, 4, 5, 7, 11], 2: [0, 1, 2, 3, 5], 3: [0, 1, 2]}.get(n, [0, 1])
    vals = set(vals)
    if n <= 2:
        for k in sorted(consts)[:3]:
            vals |= {k - 1, k, k + 1}
    vals = sorted(v for v in vals if v >= 0)
    ivs = [(l, u) for l in vals for u in vals if l <= u]
    return itertools.product(ivs, repeat=n)


class Result:
    def __init__(self):
        self.instances = 0
        self.undecided = {}
        self.bad = []
        self.cubes = 0
        self.kinds = {}


def check_rule(proj, rule, sem, res, shapes=False, arities=(2, 3), seen=None, maxinst=6000):
    b = Builder(proj, rule, arities, shapes)
    n = 0
    for sk in b.build(rule.base):
        key = (repr(sk), rule.target, rule.new)
        env, cnt, temps = {}, [0], []
        base = b.instantiate(sk, rule.base, env, cnt, temps)
        b.unify(env)
        for ivs in bounds(len(temps), b.consts()):
            for m, (l, u) in zip(temps, ivs):
                m.lb, m.ub = l, u
            ev = Ev(proj, env)
            ok = True
            for a, v in rule.cube:
                try:
                    if ev.truthy(ev.ev(a)) != v:
                        ok = False
                        break
                except Undecided:
                    pass
                except Crash:
                    pass  # a fact about an operand this operator does not have
            if not ok:
                continue
            n += 1
            if n > maxinst:
                return
            try:
                tgt = ev.ev(rule.target)
                new = ev.ev(rule.new)
                k = (to_formula(tgt), None)[0]
                try:
                    nf = to_formula(new)
                except BadInterval as e:
                    res.bad.append((rule, k, None, str(e)))
                    return
                res.instances += 1
                res.kinds[tgt.kind] = res.kinds.get(tgt.kind, 0) + 1
                if seen is not None:
                    if (k, nf) in seen:
                        continue
                    seen.add((k, nf))
                good, w = same(k, nf, sem)
            except Undecided as e:
                res.undecided[str(e)] = res.undecided.get(str(e), 0) + 1
                continue
            except (mltl.Undefined, BadInterval) as e:
                res.undecided[str(e)] = res.undecided.get(str(e), 0) + 1
                continue
            except Crash as e:
                res.bad.append((rule, to_formula(base), None, f"crash: {e}"))
                return
            if not good:
                res.bad.append((rule, k, nf, w))
                return


def check_pass(proj, mod, fn, shapes=False, arities=(2, 3)):
    ip, rules, loops = replacements(proj, mod, fn)
    res = Result()
    sem = mltl.Sem()
    seen = set()
    res.cubes = len(rules)
    for r in rules:
        check_rule(proj, r, sem, res, shapes, arities, seen)
    return ip, rules, loops, res
