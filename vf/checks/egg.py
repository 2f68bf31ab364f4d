"""P22: the equality-saturation program says what the formula says, and none of its rules equates different formulas.

to_egglog is constant-propagated for concrete formulas and option sets to the program it returns; the rule files it includes are
read, every rule is evaluated on all traces for all small intervals, and the program's terms are compared with the formula."""
from __future__ import annotations
import itertools, os
from .. import dd
from ..dd import C, T, leaf
from ..report import REPO
from .compiler import interp, where_of
from .scen import WALKS, enum, val
from .smt import Bad, Builder, Meaning, Space, postorder, read, show, signals, walk, a, b, c, wpd

FORMS = {"Not": "LOGICAL_NEGATE", "Implies": "LOGICAL_IMPLIES", "Equiv": "LOGICAL_EQUIV", "Global": "GLOBAL", "Future": "FUTURE", "Until": "UNTIL", "Release": "RELEASE"}
OPTIONS = ("associative", "commutative", "multi_arity", "const_folding", "temporal", "extended")


# ---------------------------------------------------------------- terms
def number(e, env):
    """An interval bound: a numeral, a variable or arithmetic."""
    if isinstance(e, str):
        if e.lstrip("-").isdigit():
            return int(e)
        if e in env and isinstance(env[e], int):
            return env[e]
        raise Bad(f"{e} is not bound to a number")
    xs = [number(x, env) for x in e[1:]]
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "min": min, "max": max, "*": lambda x, y: x * y}.get(e[0])
    if f is None or len(xs) < 2:
        raise Bad(f"unknown arithmetic {e[0]} of {len(xs)} terms")
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


class NoInterval(Exception):
    pass


def interval(e, env):
    if not isinstance(e, list) or e[:1] != ["Interval"] or len(e) != 3:
        raise Bad(f"{e} is not an interval")
    lb, ub = number(e[1], env), number(e[2], env)
    if not 0 <= lb <= ub:
        raise NoInterval(f"[{lb},{ub}]")
    return lb, ub


def tree(e, env):
    """The formula a term stands for."""
    if isinstance(e, str):
        if e in env and isinstance(env[e], tuple):
            return env[e]
        raise Bad(f"{e} is not bound")
    h = e[0]
    if h == "Bool" and len(e) == 2 and e[1] in ("true", "false"):
        return ("c", e[1] == "true")
    if h == "Var" and len(e) == 2 and e[1].startswith('"'):
        return ("s", e[1][1:-1])
    for nm, kind in (("And", "LOGICAL_AND"), ("Or", "LOGICAL_OR")):
        if h.startswith(nm) and h[len(nm):].isdigit():
            if len(e) - 1 != int(h[len(nm):]):
                raise Bad(f"{h} of {len(e) - 1} terms")
            return (kind, *[tree(x, env) for x in e[1:]])
    n = {"Not": 1, "Implies": 2, "Equiv": 2, "Global": 2, "Future": 2, "Until": 3, "Release": 3}.get(h)
    if n is None or len(e) - 1 != n:
        raise Bad(f"{h} of {len(e) - 1} terms")
    if h in ("Global", "Future", "Until", "Release"):
        lb, ub = interval(e[1], env)
        return (FORMS[h], lb, ub, *[tree(x, env) for x in e[2:]])
    return (FORMS[h], *[tree(x, env) for x in e[1:]])


def heads(e):
    if isinstance(e, list) and e:
        if isinstance(e[0], str):
            yield e[0], len(e) - 1
        for x in e[1:]:
            yield from heads(x)


def names(e, out=None):
    """Pattern variables: those in the place of numbers, and those in the place of formulas."""
    nums, forms = out if out is not None else (set(), set())

    def bound(x):
        if isinstance(x, list):
            for y in x[1:]:
                bound(y)
        elif not x.lstrip("-").isdigit():
            nums.add(x)

    def go(x):
        if isinstance(x, str):
            forms.add(x)
            return
        if x[0] == "Interval":
            for y in x[1:]:
                bound(y)
        elif x[0] not in ("Bool", "Var"):
            for y in x[1:]:
                go(y)
    go(e)
    return nums, forms


def holds(cond, env):
    if cond[0] in ("<=", "<", ">=", ">", "=", "!="):
        x, y = number(cond[1], env), number(cond[2], env)
        return {"<=": x <= y, "<": x < y, ">=": x >= y, ">": x > y, "=": x == y, "!=": x != y}[cond[0]]
    raise Bad(f"unknown condition {cond[0]}")


def horizon(t):
    return wpd(t) + 1


def rule_parts(cmd):
    lhs, rhs, when, opts = cmd[1], cmd[2], [], {}
    i = 3
    while i < len(cmd):
        k = cmd[i]
        if k == ":subsume":
            opts[k] = True
            i += 1
        elif k == ":when" and i + 1 < len(cmd):
            when = cmd[i + 1]
            i += 2
        elif k == ":ruleset" and i + 1 < len(cmd):
            opts[k] = cmd[i + 1]
            i += 2
        else:
            raise Bad(f"unknown part {k}")
    return lhs, rhs, when, opts


def text(e):
    return e if isinstance(e, str) else "(" + " ".join(text(x) for x in e) + ")"


def rule_sound(rep, key, at, lhs, rhs, when, limit):
    nums, forms = names(lhs)
    rn, rf = names(rhs)
    extra = {}
    for w in when:                                     # (= b4 expr) introduces b4
        if w[0] == "=" and isinstance(w[1], str) and w[1] not in nums and not w[1].isdigit():
            extra[w[1]] = w[2]
    free = sorted((rn - nums - set(extra)) | (rf - forms))
    for w in when:
        free += [x for x in flat(w[1:]) if x not in nums and x not in extra]
    if free:
        rep.bad(f"{key}:unbound", f"the rule {text(lhs)} => {text(rhs)} uses {', '.join(sorted(set(free)))}, which nothing binds", at)
        return
    nums = sorted(nums)
    fenv = {f: ("s", f) for f in forms}
    tried = 0
    for vals in itertools.product(range(limit + 1), repeat=len(nums)):
        env = {**fenv, **dict(zip(nums, vals))}
        try:
            l = tree(lhs, env)
        except NoInterval:
            continue
        for x, e in extra.items():
            env[x] = number(e, env)
        if not all(holds(w, env) for w in when):
            continue
        at_ = ", ".join(f"{n}={env[n]}" for n in nums)
        try:
            r = tree(rhs, env)
        except NoInterval as e:
            rep.bad(f"{key}:interval", f"the rule {text(lhs)} => {text(rhs)} makes the interval {e} when {at_}", at)
            return
        W = max(horizon(l), horizon(r))
        if len(forms) * W > 18:
            continue
        sp = space(tuple(sorted(forms)), W)
        x, y = Meaning(sp).at(l, 0), Meaning(sp).at(r, 0)
        tried += 1
        if x != y:
            bit = ((x ^ y) & -(x ^ y)).bit_length() - 1
            rep.bad(f"{key}:meaning", f"the rule {text(lhs)} => {text(rhs)} equates formulas that differ" + (f" when {at_}" if at_ else "") + f": on the trace {sp.describe(bit)}", at)
            return
    if tried:
        rep.ok(what="rewrite rules evaluated", sample=f"{text(lhs)} => {text(rhs)}: {tried} interval choices")
    else:
        rep.skip(key, "no interval satisfies the conditions")


_space = {}


def space(names_, W):
    if (names_, W) not in _space:
        _space[names_, W] = Space(list(names_), [], W, extra=0)
    return _space[names_, W]


def flat(e):
    for x in e:
        if isinstance(x, list):
            yield from flat(x[1:])
        elif not x.lstrip("-").isdigit():
            yield x


# ---------------------------------------------------------------- horizons computed by the rules
def analysis(rep, key, at, cmd, limit):
    """(rule (facts) ((set (wpd term) value))): the value is the term's delay."""
    facts, acts = cmd[1], cmd[2]
    for act in acts:
        if act[0] != "set" or act[1][0] not in ("wpd", "bpd"):
            continue
        fn, term, value = act[1][0], act[1][1], act[2]
        nums, forms = names(term)
        given = {}
        for f in facts:
            if f[0] == "=" and isinstance(f[1], str) and isinstance(f[2], list) and f[2][0] in ("wpd", "bpd") and isinstance(f[2][1], str):
                given[f[1]] = (f[2][0], f[2][1])
        if not any(f == term for f in facts):
            rep.skip(key, "the term is not a fact")
            continue
        syms = sorted(nums) + sorted({f for _, f in given.values()})
        bad = None
        n = 0
        if isinstance(term, list) and term[0] == "Var":
            forms = set()
        for vals in itertools.product(range(limit + 1), repeat=len(syms)):
            env = dict(zip(syms, vals))
            if isinstance(term, list) and term[0] in ("Global", "Future", "Until", "Release"):
                try:
                    lb, ub = interval(term[1], env)
                except NoInterval:
                    continue
                subs = term[2:]
                add = ub if fn == "wpd" else lb
            else:
                subs = [] if term[0] in ("Bool", "Var") else term[1:]
                add = 0
            if any(s not in env for s in subs):
                raise Bad(f"the delay of {', '.join(s for s in subs if s not in env)} is not read")
            want = ((max if fn == "wpd" else min)([env[s] for s in subs]) if subs else 0) + add
            got = number(value, {**env, **{v: env[f] for v, (k, f) in given.items() if k == fn}})
            n += 1
            if got != want:
                bad = (env, got, want)
                break
        if bad:
            rep.bad(f"{key}:{fn}", f"{fn} of {text(term)} is computed as {bad[1]}, it is {bad[2]} when {bad[0]}", at)
        else:
            rep.ok(what="delay rules evaluated", sample=f"{fn} {text(term)}: {n} choices")


# ---------------------------------------------------------------- the program
def program(t, opts):
    """(text with files put in, the files) to_egglog returns for a formula."""
    bd = Builder()
    e = bd.build(t)
    s = bd.s
    ctx = s.obj("Context", "context")
    atoms = [o for o in bd.names if o.args[0] in ("Atomic", "Signal")]
    s.set(ctx, stats=s.obj("Stats", "stats"), atomic_id_map={o: C(i) for i, o in enumerate(atoms)})
    for o in bd.names:
        s.set(o, engine=enum("R2U2Engine", "BOOLEANIZER" if o.args[0] == "Atomic" else "TEMPORAL_LOGIC"))
    s.arg("start", e)
    s.arg("context", ctx)
    s.arg("options", val(opts))
    kw = s.kw()
    ip = interp((), 60, {k: v for k, v in kw["models"].items() if k not in WALKS})
    ip.eqmods = ("types", "cpt")
    ip.models["cpt.postorder"] = postorder
    ip.models["log.debug"] = lambda ip, a, st: dd.NONE
    ip.texts = bd.names
    from ..pyfront import St
    st = St()
    args = kw["setup"](ip, st)
    old, dd.GROUND = dd.GROUND, True
    try:
        r, s2 = ip.run("eqsat", "to_egglog", args=args, st=st)
        v = ip.val(r, s2)
    finally:
        dd.GROUND = old
    ls = dd.leaves(v)
    if len(ls) != 1:
        raise ValueError("text not derived")
    files = []
    return put(ls[0], files), files, {f"a{i}": bd.names[o][1:-1] for i, o in enumerate(atoms)}


def path(t):
    if t.op == "c" and isinstance(t.args[0], str):
        return t.args[0]
    if t.op == "bin" and t.args[0] == "Div":
        return os.path.join(path(t.args[1]), path(t.args[2]))
    if dd.show(t) == "eqsat.SRC_DIR":
        return "compiler/c2po"
    if t.op == "attr" and t.args[1] == "parent":
        return os.path.dirname(path(t.args[0]))
    if t.op == "call" and t.args[0] == "pathlib.Path":
        return path(t.args[1])
    if t.op == "g" and t.args[1] == "__file__":
        return f"compiler/c2po/{t.args[0]}.py"
    raise ValueError("path not derived: " + dd.show(t)[:80])


def put(t, files):
    if t.op == "c" and isinstance(t.args[0], str):
        return t.args[0]
    if t.op == "cat":
        return "".join(put(x, files) for x in t.args)
    if t.op == "mcall" and t.args[0] == "read" and t.args[1].op == "call" and "open" in t.args[1].args[0]:
        p = path(t.args[1].args[1])
        files.append(p)
        try:
            return open(os.path.join(REPO, p)).read()
        except OSError:
            raise Bad(f"the file {p} does not exist")
    if t.op == "call" and t.args[0] == "util.read_file":
        p = path(t.args[1])
        files.append(p)
        return open(os.path.join(REPO, p)).read()
    if t.op == "mcall" and t.args[0] == "replace" and len(t.args) == 4:
        return put(t.args[1], files).replace(put(t.args[2], files), put(t.args[3], files))
    raise ValueError("text not derived: " + dd.show(t)[:80])


BUILTIN = {"+": 2, "-": 2, "*": 2, "min": 2, "max": 2, "<=": 2, "<": 2, ">=": 2, ">": 2, "=": 2, "!=": 2}


def check_program(rep, t, opts, greedy):
    on = "+".join(k for k in OPTIONS if opts[k]) or "no rules"
    key = f"program:{'greedy' if greedy else 'ilp'}:{on}:{show(t)}"
    at = where_of("eqsat", "to_egglog")
    try:
        src, files, atoms = program(t, opts)
    except Bad as e:
        rep.bad(key, f"for {show(t)}: {e}", at)
        return set()
    used = set(files)
    for k in OPTIONS[:-1]:
        has = any(f.endswith(f"rewrites/{k}.egg") for f in files)
        rep.require(has == opts[k], f"files:{k}:{opts[k]}", f"the rules of {k} are {'included' if has else 'not included'} though the option is {'on' if opts[k] else 'off'}", at, "options and rule files")
    try:
        cmds = read(src)
        ctors, rulesets, lets, order, extracted, ran = {"Interval": 2}, set(), {}, [], [], []
        functions = set()
        for cmd in cmds:
            if not isinstance(cmd, list) or not cmd:
                raise Bad(f"stray {cmd!r}")
            k = cmd[0]
            if k == "with-dynamic-cost":
                cmd = cmd[1]
                k = cmd[0]
            if k in ("datatype",):
                for d in cmd[2:]:
                    ctors[d[0]] = len(d) - 1
            elif k == "ruleset":
                rulesets.add(cmd[1])
            elif k == "function":
                functions.add(cmd[1])
            elif k == "let":
                if cmd[1] in lets:
                    raise Bad(f"{cmd[1]} is bound twice")
                for h, n in heads(cmd[2]):
                    if ctors.get(h) != n:
                        raise Bad(f"{h} of {n} terms is not declared")
                lets[cmd[1]] = tree(cmd[2], lets)
            elif k == "run-schedule":
                ran += [x for x in str(cmd).replace("[", " ").replace("]", " ").replace("'", " ").replace(",", " ").split()]
            elif k == "extract":
                extracted.append(cmd[1])
            order.append(k)
        for rs in ("mltl-rewrites", "const-folding") + (("analysis",) if greedy else ()):
            if rs in rulesets and rs not in ran:
                rep.bad(f"schedule:{rs}", f"the rules of {rs} are never run", at)
        for cmd in cmds:
            if cmd[0] in ("rewrite", "birewrite"):
                opts_ = rule_parts(cmd)[3]
                rs = opts_.get(":ruleset")
                if rs is not None and rs not in rulesets:
                    raise Bad(f"the rule set {rs} is not declared")
                for side in cmd[1:3]:
                    for h, n in heads(side):
                        if h not in BUILTIN and ctors.get(h) != n:
                            raise Bad(f"{h} of {n} terms, in a rule, is not declared")
        if greedy:
            if len(extracted) != 1 or extracted[0] not in lets:
                raise Bad("the formula is not extracted exactly once")
            root = lets[extracted[0]]
        else:
            root = list(lets.values())[-1] if lets else None
    except NoInterval as e:
        rep.bad(key, f"for {show(t)}: the program contains the interval {e}", at)
        return used
    except Bad as e:
        rep.bad(key, f"for {show(t)}: the program is not well formed: {e}", at)
        return used
    back = lambda x: ("s", atoms[x[1]]) if x[0] == "s" and x[1] in atoms else x if x[0] in ("s", "c") else \
        (x[:3] + tuple(back(y) for y in x[3:]) if x[0] in FORMS.values() and x[0] in ("GLOBAL", "FUTURE", "UNTIL", "RELEASE") else (x[0],) + tuple(back(y) for y in x[1:]))
    flat_ = lambda x: ("s", show(x)) if x[0] in ("atom", "s") else x if x[0] == "c" else \
        (x[:3] + tuple(flat_(y) for y in x[3:]) if x[0] in ("GLOBAL", "FUTURE", "UNTIL", "RELEASE") else (x[0],) + tuple(flat_(y) for y in x[1:]))
    got, want = back(root), flat_(t)
    sig = sorted(set(signals(got)) | set(signals(want)))
    W = max(horizon(got), horizon(want))
    sp = Space(sig, [], W, extra=0)
    x, y = Meaning(sp).at(got, 0), Meaning(sp).at(want, 0)
    if x != y:
        bit = ((x ^ y) & -(x ^ y)).bit_length() - 1
        rep.bad(key, f"for {show(t)} the program optimises {show(got)}, which differs on the trace {sp.describe(bit)}", at)
    else:
        rep.ok(what="programs read back", sample=f"{show(t)} is {show(got)}")
    return used


def trees():
    N = lambda t: ("LOGICAL_NEGATE", t)
    out = [a, ("c", True), ("c", False), N(a), ("LOGICAL_AND", a, b), ("LOGICAL_OR", a, b), ("LOGICAL_AND", a, b, c), ("LOGICAL_OR", a, b, c), ("LOGICAL_AND", a, b, c, N(a)), ("LOGICAL_OR", a, b, c, N(a)),
           ("LOGICAL_IMPLIES", a, b), ("LOGICAL_EQUIV", a, b), ("LOGICAL_IMPLIES", a, ("LOGICAL_EQUIV", b, a)), ("atom", ("EQUAL", ("i", "x"), ("c", 1))),
           ("LOGICAL_OR", ("atom", ("EQUAL", ("i", "x"), ("c", 1))), N(("atom", ("EQUAL", ("i", "x"), ("c", 2)))))]
    for l, u in ((0, 0), (0, 3), (1, 2), (2, 2)):
        out += [("FUTURE", l, u, a), ("GLOBAL", l, u, a), ("UNTIL", l, u, a, b), ("RELEASE", l, u, a, b)]
    out += [("UNTIL", 0, 1, ("FUTURE", 1, 2, a), ("GLOBAL", 0, 2, b)), ("LOGICAL_AND", ("FUTURE", 0, 1, a), ("FUTURE", 0, 1, a)), N(("RELEASE", 1, 2, N(a), ("FUTURE", 0, 1, b)))]
    return out


def rules(rep, f, limit):
    at0 = f
    try:
        cmds = read(open(os.path.join(REPO, f)).read())
    except Bad as e:
        rep.bad(f"file:{f}", f"{f}: {e}", f)
        return
    seen = {}
    for cmd in cmds:
        if cmd[0] in ("rewrite", "birewrite"):
            nm = os.path.basename(f)
            try:
                lhs, rhs, when, _ = rule_parts(cmd)
                key = f"rule:{nm}:{text(lhs)}"
                n = seen[key] = seen.get(key, 0) + 1
                key += f"#{n}" if n > 1 else ""
                rep.guard(key, rule_sound, rep, key, at0, lhs, rhs, when, limit)
                if cmd[0] == "birewrite":
                    rep.guard(key, rule_sound, rep, key + ":back", at0, rhs, lhs, when, limit)
            except Bad as e:
                rep.bad(f"rule:{nm}:{text(cmd[1])}", f"{f}: {e}", at0)
        elif cmd[0] == "rule":
            key = f"analysis:{os.path.basename(f)}:{text(cmd[1][0])[:60]}"
            try:
                rep.guard(key, analysis, rep, key, at0, cmd, 2)
            except Bad as e:
                rep.bad(key, f"{f}: {e}", at0)


def p22(rep):
    full = dict.fromkeys(OPTIONS, True)
    none = dict.fromkeys(OPTIONS, False)
    jobs = []
    limit = 4 if rep.tier == "thorough" else 3
    files = set()
    for greedy in (True, False):
        for ext in (True, False):
            try:
                files |= set(program(a, dict(full, extended=ext, greedy_extraction=greedy))[1])
            except (ValueError, Bad) as e:
                rep.skip("program", str(e)[:160])
    for f in sorted(files):
        jobs.append((f, lambda r, f=f: rules(r, f, limit)))

    def programs(part):
        def g(r):
            for t, o, gr in part:
                r.guard(show(t), check_program, r, t, dict(o, greedy_extraction=gr), gr)
        return g
    every = [(t, full, g) for t in trees() for g in (True, False)]
    u = ("UNTIL", 1, 2, a, b)
    every += [(u, dict(none, **{k: True}), g) for k in OPTIONS for g in (True, False)] + [(u, none, g) for g in (True, False)] + [(u, dict(full, extended=False), True)]
    jobs += [(f"programs {i}", programs(every[i::8])) for i in range(8)]
    rep.tasks(jobs)
