"""P01, P02: rewriting and normal-form passes preserve the meaning of formulas."""
from .. import rules, mltl, dd, teval
from ..teval import Ev, M, Undecided, Crash
from .common import project, command_functions


def abstract(k, nf, sem):
    """Drop the parts of a counterexample that do not matter: operands that are only passed along."""
    def subst(f, x, y):
        if f == x:
            return y
        if f[0] in ("p", "c"):
            return f
        if f[0] in ("o", "a"):
            return (f[0], f[1], tuple(subst(c, x, y) for c in f[2]))
        return f[:4] + (tuple(subst(c, x, y) for c in f[4]),)

    def props(f):
        if f[0] == "p":
            return {f[1]}
        if f[0] == "c":
            return set()
        return set().union(*[props(c) for c in f[2 if f[0] in ("o", "a") else 4]])
    for n, c in enumerate(k[2] if k[0] == "o" else k[4] if k[0] == "t" else ()):
        if c[0] not in ("p", "c"):
            q = ("p", 90 + n)
            k2, n2 = subst(k, c, q), subst(nf, c, q)
            try:
                if not props(n2) <= props(k2):
                    continue
                if not rules.same(k2, n2, sem)[0]:
                    k, nf = k2, n2
            except Exception:
                pass
    order = {}

    def ren(f):
        if f[0] == "p":
            return ("p", order.setdefault(f[1], len(order)))
        if f[0] == "c":
            return f
        if f[0] in ("o", "a"):
            return (f[0], f[1], tuple(ren(c) for c in f[2]))
        return f[:4] + (tuple(ren(c) for c in f[4]),)
    return ren(k), ren(nf)


def soundness(r, p, cmd, shapes=False, arities=(2, 3)):
    cf = command_functions(p)
    if cmd not in cf:
        r.skip(cmd, "no such command")
        return None
    mod, fn = cf[cmd]
    ip, rs, loops, res = rules.check_pass(p, mod, fn, shapes, arities)
    r.ok(res.instances, f"{cmd}: rule instances")
    r.counts[f"{cmd}: guarded replacements"] = res.cubes
    for k, n in res.undecided.items():
        r.skip(f"{cmd}", f"{k} ({n} instances)")
    sem = mltl.Sem()
    for rule, a, b, w in res.bad:
        where = f"{p.relpath(mod)}: {fn}"
        if b is None:
            r.bad(f"{cmd}: {mltl.show(a) if a[0] != 'a' else a} {w}", f"replacement of {a} is not well formed: {w}", where)
            continue
        try:
            a2, b2 = abstract(a, b, sem)
        except Exception:
            a2, b2 = a, b
        sh = lambda f: mltl.show(f) if f[0] != "a" else str(f)
        r.bad(f"{cmd}: {sh(a2)} => {sh(b2)}", f"{sh(a)} is replaced by {sh(b)}, which differs on the trace {w}", where)
    for rule in rs[:2]:
        if len(r.samples) < 8:
            r.samples.append(f"{cmd}: when {dd.showcube(rule.cube)[:300]} replace by {dd.show(rule.new)[:200]}")
    return ip, rs, loops, mod, fn


def p01(r):
    p = project()
    r.guard("optimize_rewrites", soundness, r, p, "optimize_rewrites")


# ------------------------------------------------------------------ normal forms
LOGICAL = ["LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES", "LOGICAL_EQUIV", "LOGICAL_NEGATE",
           "GLOBAL", "FUTURE", "UNTIL", "RELEASE", "HISTORICAL", "ONCE", "SINCE", "TRIGGER"]


def created(m, olds, out):
    """Operator kinds of nodes built by the pass."""
    if isinstance(m, M) and m.prop is None and not any(m is o for o in olds):
        if m.kind:
            out.add(m.kind)
        for c in m.children:
            created(c, olds, out)
    return out


def removal(r, p, cmd, removed, info, iterated=False):
    """Every operator in `removed` is replaced, by operators the pass does not promise to remove."""
    ip, rs, loops, mod, fn = info
    where = f"{p.relpath(mod)}: {fn}"
    for kind in removed:
        hit = False
        for L, base, io in loops:
            n = rules.TEMPO.get(kind) or mltl.BOOL_ARITY.get(kind) or 2
            env = {}
            ch = [M(None, prop=i) for i in range(n)]
            m = M("TemporalOperator" if kind in rules.TEMPO else "Operator", kind=kind, children=ch)
            if kind in rules.TEMPO:
                m.lb, m.ub = 1, 3
            env[base] = m
            for i, c in enumerate(ch):
                env[rules.child_term(base, i)] = c
            ev = Ev(p, env)
            for l in ev.leaves(io):
                effs, _ = rules.seq_effects(l)
                for e in effs:
                    if e.op == "eff" and e.args[0].endswith(".replace"):
                        try:
                            new = ev.ev(e.args[2])
                            if ev.ev(e.args[1]) is m:
                                hit = True
                                left = created(new, [m] + ch, set()) & set(removed)
                                r.require(not left, f"{cmd}: {kind} replaced by {sorted(left)}",
                                          f"the pass promises to remove {kind} but creates {sorted(left)} when replacing it",
                                          where, f"{cmd}: target operators")
                        except (Undecided, Crash) as ex:
                            r.skip(cmd, f"{kind}: {ex}")
                            hit = True
        r.require(hit, f"{cmd}: {kind} is left in place", f"the pass promises to remove {kind} but has no replacement for it", where,
                  f"{cmd}: removed operators")


def p02(r):
    p = project()
    specs = [
        ("to_bnf", dict(), ["LOGICAL_OR", "LOGICAL_IMPLIES", "LOGICAL_XOR", "LOGICAL_EQUIV", "FUTURE", "GLOBAL", "RELEASE"]),
        ("to_nnf", dict(), ["LOGICAL_IMPLIES", "LOGICAL_XOR"]),
        ("multi_operators_to_binary", dict(arities=(2, 3, 4, 5, 6)), []),
        ("flatten_multi_operators", dict(shapes=True), []),
        ("remove_extended_operators", dict(arities=(2, 3, 4)), ["LOGICAL_IMPLIES", "LOGICAL_XOR", "FUTURE", "GLOBAL", "ONCE", "HISTORICAL"]),
        ("remove_release_operators", dict(), ["RELEASE"]),
    ]
    for cmd, kw, removed in specs:
        def one():
            info = soundness(r, p, cmd, **kw)
            if info and removed:
                removal(r, p, cmd, removed, info)
            if info and cmd == "to_nnf":
                r.guard("nnf shape", nnf_shape, r, p, info)
            if info and cmd in ("multi_operators_to_binary",):
                r.guard("binary shape", binary_shape, r, p, info)
        r.guard(cmd, one)
    from . import front
    r.tasks(front.kept_formulas())


def nnf_shape(r, p, info):
    """After the pass a negation is only ever applied to a literal: each negated operator is replaced, and the
    negations created are applied to operands the traversal goes on to visit."""
    ip, rs, loops, mod, fn = info
    where = f"{p.relpath(mod)}: {fn}"
    for kind in ["LOGICAL_AND", "LOGICAL_OR", "LOGICAL_XOR", "LOGICAL_IMPLIES", "LOGICAL_EQUIV", "LOGICAL_NEGATE",
                 "GLOBAL", "FUTURE", "UNTIL", "RELEASE"]:
        hit = False
        for L, base, io in loops:
            n = rules.TEMPO.get(kind) or mltl.BOOL_ARITY.get(kind) or 2
            ch = [M(None, prop=i) for i in range(n)]
            o = M("TemporalOperator" if kind in rules.TEMPO else "Operator", kind=kind, children=ch)
            if kind in rules.TEMPO:
                o.lb, o.ub = 1, 3
            m = M("Operator", kind="LOGICAL_NEGATE", children=[o])
            c0 = rules.child_term(base, 0)
            env = {base: m, c0: o}
            for i, c in enumerate(ch):
                env[rules.child_term(c0, i)] = c
            ev = Ev(p, env)
            for l in ev.leaves(io):
                effs, _ = rules.seq_effects(l)
                for e in effs:
                    if e.op == "eff" and e.args[0].endswith(".replace"):
                        try:
                            if ev.ev(e.args[1]) is m:
                                hit = True
                                new = ev.ev(e.args[2])
                                r.require(literal_negations(new), f"to_nnf: !{kind} keeps a compound negation",
                                          f"replacing a negated {kind} leaves a negation of a compound node: {new!r}", where,
                                          "to_nnf: negated operators")
                        except (Undecided, Crash):
                            hit = True
        r.require(hit, f"to_nnf: negated {kind} is left in place", f"the pass has no replacement for a negated {kind}", where,
                  "to_nnf: negated operators")


def literal_negations(m):
    if not isinstance(m, M) or m.prop is not None:
        return True
    if m.kind == "LOGICAL_NEGATE" and m.children and m.children[0].prop is None:
        return False
    return all(literal_negations(c) for c in m.children)


def binary_shape(r, p, info):
    ip, rs, loops, mod, fn = info
    where = f"{p.relpath(mod)}: {fn}"
    for kind in ("LOGICAL_AND", "LOGICAL_OR"):
        for n in (3, 4, 5, 6, 7, 9):
            for L, base, io in loops:
                ch = [M(None, prop=i) for i in range(n)]
                m = M("Operator", kind=kind, children=ch)
                env = {base: m}
                for i, c in enumerate(ch):
                    env[rules.child_term(base, i)] = c
                ev = Ev(p, env)
                hit = False
                for l in ev.leaves(io):
                    for e in rules.seq_effects(l)[0]:
                        if e.op == "eff" and e.args[0].endswith(".replace"):
                            try:
                                new = ev.ev(e.args[2])
                            except (Undecided, Crash):
                                hit = True
                                continue
                            hit = True

                            def wide(x):
                                return x.prop is None and (len(x.children) > 2 or any(wide(c) for c in x.children))
                            r.require(not wide(new), f"multi_operators_to_binary: {kind} of {n}",
                                      f"a {kind} of {n} operands becomes {new!r}, which is not binary", where, "binary results")
                r.require(hit, f"multi_operators_to_binary: {kind} of {n} kept", f"a {kind} of {n} operands is left as it is", where,
                          "binary results")
