"""Typestate of reported errors: an operation that has reported an error does not claim success."""
from __future__ import annotations
import ast
from .compiler import project

REPORT = {"error", "internal"}
T_, F_, N_, OK_, BAD_, EMPTY_, U_ = "True", "False", "None", "success", "failure", "empty", "?"
FAIL = {F_, N_, BAD_, EMPTY_}
CAP = 400
FAIL_TEXTS = {"failure", "error", "failed", "timeout", "memout"}
FAIL_MEMBERS = {"FAILURE", "ERROR", "INVALID", "TIMEOUT", "MEMOUT", "FAILED"}


class State:
    __slots__ = ("err", "mark", "env", "lost")

    def __init__(self, err=None, mark=False, env=(), lost=frozenset()):
        self.err, self.mark, self.env, self.lost = err, mark, dict(env), lost

    def key(self):
        return self.err, self.mark, tuple(sorted(self.env.items()))

    def but(self, **kw):
        s = State(self.err, self.mark, self.env, self.lost)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def set(self, name, v):
        s = State(self.err, self.mark, self.env, self.lost)
        # what is known about a.b is lost when a changes
        for k in [k for k in s.env if k == name or k.startswith(name + ".") or k.startswith("if not ") and (s.env[k] == name or name in k)]:
            del s.env[k]
        if v != U_:
            s.env[name] = v
        return s


def uniq(states):
    out = {}
    for s in states:
        out.setdefault(s.key(), s)
    states = list(out.values())
    # forget the variables that split the states most, one at a time
    while len(states) > CAP:
        names = sorted({k for s in states for k in s.env})
        best = None
        for n in names:
            left = {}
            for s in states:
                t = State(s.err, s.mark, {k: v for k, v in s.env.items() if k != n}, s.lost | {n})
                left.setdefault(t.key(), t)
            if best is None or len(left) < len(best):
                best = left
        if best is None:
            break
        states = list(best.values())
    return states


def dotted(e):
    try:
        return ast.unparse(e)
    except Exception:
        return ""


def place(e):
    return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and place(e.value)


class Flow:
    """Forward analysis of one function."""
    def __init__(self, fn, mod, wrappers, lints):
        self.fn, self.mod, self.wrappers, self.lints = fn, mod, wrappers, lints
        self.returns = []            # (state, value, node)
        self.sites = 0

    # -------------------------------------------------- expressions
    def is_report(self, c):
        if not isinstance(c, ast.Call):
            return False
        f = dotted(c.func)
        return f.split(".")[-1] in REPORT and f.split(".")[0] == "log" or f.split(".")[-1] in self.wrappers

    def ev(self, e, s):
        if e is None:
            return N_
        if isinstance(e, ast.Constant):
            return T_ if e.value is True else F_ if e.value is False else N_ if e.value is None else EMPTY_ if e.value in ("", b"", 0) else BAD_ if e.value in FAIL_TEXTS else U_
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return BAD_
        if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
            elts = getattr(e, "elts", getattr(e, "keys", []))
            if not elts:
                return EMPTY_
            if isinstance(e, ast.Tuple):
                v = [self.ev(x, s) for x in elts]
                if any(x in (F_, N_, BAD_) for x in v):
                    return BAD_
                if all(x == EMPTY_ for x in v):
                    return EMPTY_
                if T_ in v or OK_ in v:
                    return OK_
            return U_
        if isinstance(e, ast.Call) and dotted(e.func) in ("list", "dict", "set", "bytes", "str") and not e.args:
            return EMPTY_
        if isinstance(e, ast.Attribute) and (e.attr == "SUCCESS" or e.attr.isupper() and "ReturnCode" in dotted(e.value)):
            return OK_ if e.attr == "SUCCESS" else BAD_
        if isinstance(e, ast.Attribute) and e.attr in FAIL_MEMBERS:
            return BAD_
        if place(e):
            return s.env.get(dotted(e), U_)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(self.ev(e.operand, s))
            return {True: F_, False: T_}.get(v, U_)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(v, s) for v in e.values]
            ts = [self.truth(v) for v in vs]
            if isinstance(e.op, ast.And):
                return F_ if False in ts else T_ if all(t is True for t in ts) else U_
            return T_ if True in ts else F_ if all(t is False for t in ts) else U_
        if isinstance(e, ast.IfExp):
            t = self.truth(self.ev(e.test, s))
            a, b = self.ev(e.body, s), self.ev(e.orelse, s)
            return a if t is True or a == b else b if t is False else U_
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, s), self.ev(e.comparators[0], s)
            if isinstance(e.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and U_ not in (a, b):
                same = a == b if a not in (OK_, BAD_, EMPTY_) or b not in (OK_, BAD_, EMPTY_) else None if a != OK_ or b != OK_ else True
                if same is not None:
                    return T_ if same == isinstance(e.ops[0], (ast.Is, ast.Eq)) else F_
            return U_
        return U_

    @staticmethod
    def truth(v):
        return True if v == T_ else False if v in (F_, N_, EMPTY_) else None

    def refine(self, e, s, val):
        """The state in which e is known to be val."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, s, not val)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == val:
            for v in e.values:
                s = self.refine(v, s, val)
                if s is None:
                    return None
            return s
        t = self.truth(self.ev(e, s))
        if t is not None and t != val:
            return None
        if not val and "if not " + dotted(e) in s.env:
            return s.set(s.env["if not " + dotted(e)], F_)
        if place(e) and dotted(e) not in s.env and isinstance(e, ast.Name):
            return s.set(dotted(e), T_) if val and dotted(e) in self.bools else s.set(dotted(e), F_) if not val and dotted(e) in self.bools else s
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and place(e.left) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            if isinstance(e.ops[0], (ast.Is, ast.Eq)) == val:
                return s.set(dotted(e.left), N_)
            if s.env.get(dotted(e.left)) == N_:
                return None
        return s

    def scan(self, e, s):
        """Reports made while evaluating e."""
        if e is None:
            return s
        for c in ast.walk(e):
            if self.is_report(c):
                self.sites += 1
                s = s.but(err=s.err or c.lineno)
        return s

    # -------------------------------------------------- statements
    def block(self, body, states):
        """states in -> (fallthrough, break, continue)"""
        br, co = [], []
        for st in body:
            if not states:
                break
            states, b, c = self.stmt(st, uniq(states))
            br += b
            co += c
        return uniq(states), br, co

    def assign(self, tgt, value, s):
        if isinstance(tgt, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tgt.elts) else [None] * len(tgt.elts)
            for t, v in zip(tgt.elts, vals):
                s = self.assign(t, v if v is not None else ast.Name("?", ast.Load()), s)
            return s
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, ast.Name("?", ast.Load()), s)
        if not place(tgt):
            return s
        v = self.ev(value, s)
        if v == U_ and place(value) and False:
            pass
        n = s.set(dotted(tgt), v)
        if v == U_:
            # x = a and c: x is false when c turns out to be
            for c in (value.values if isinstance(value, ast.BoolOp) and isinstance(value.op, ast.And) else [value] if isinstance(value, (ast.Call, ast.Compare)) else []):
                n.env["if not " + dotted(c)] = dotted(tgt)
        name = dotted(tgt).lower()
        if isinstance(tgt, ast.Name) and tgt.id not in self.outer:
            return n
        if v in (F_, BAD_) or v == N_ and isinstance(tgt, ast.Attribute) or v == T_ and ("err" in name or "fail" in name or "invalid" in name) or \
                isinstance(tgt, ast.Attribute) and ("status" in name or "result" in name) and v != T_:
            n.mark = True
        return n

    def stmt(self, st, states):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return states, [], []
        if isinstance(st, ast.Expr):
            c = st.value
            if isinstance(c, ast.Call) and dotted(c.func) in ("sys.exit", "exit", "os._exit"):
                return [], [], []
            return [self.scan(c, s) for s in states], [], []
        if isinstance(st, ast.Assign):
            out = []
            for s in states:
                s = self.scan(st.value, s)
                for t in st.targets:
                    s = self.assign(t, st.value, s)
                out.append(s)
            return out, [], []
        if isinstance(st, ast.AnnAssign):
            return [self.assign(st.target, st.value, self.scan(st.value, s)) if st.value is not None else s for s in states], [], []
        if isinstance(st, ast.AugAssign):
            out = []
            for s in states:
                s = self.scan(st.value, s)
                if place(st.target):
                    a, b = s.env.get(dotted(st.target), U_), self.ev(st.value, s)
                    v = U_
                    if isinstance(st.op, ast.BitAnd):
                        v = F_ if F_ in (a, b) else T_ if a == b == T_ else U_
                    elif isinstance(st.op, ast.BitOr):
                        v = T_ if T_ in (a, b) else F_ if a == b == F_ else U_
                    s = s.set(dotted(st.target), v)
                out.append(s)
            return out, [], []
        if isinstance(st, ast.Return):
            for s in states:
                s = self.scan(st.value, s)
                if isinstance(st.value, ast.IfExp):
                    for val, sub in ((True, st.value.body), (False, st.value.orelse)):
                        r = self.refine(st.value.test, s, val)
                        if r is not None:
                            self.returns.append((r, self.ev(sub, r), st))
                else:
                    self.returns.append((s, self.ev(st.value, s), st))
            return [], [], []
        if isinstance(st, ast.Raise):
            return [], [], []
        if isinstance(st, ast.Break):
            return [], states, []
        if isinstance(st, ast.Continue):
            return [], [], states
        if isinstance(st, ast.If):
            a, b = [], []
            for s in states:
                s = self.scan(st.test, s)
                x, y = self.refine(st.test, s, True), self.refine(st.test, s, False)
                a += [x] if x is not None else []
                b += [y] if y is not None else []
            fa, ba, ca = self.block(st.body, a)
            fb, bb, cb = self.block(st.orelse, b)
            return fa + fb, ba + bb, ca + cb
        if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
            seen, work, exits = {}, list(states), []
            test = st.test if isinstance(st, ast.While) else None
            while work:
                new = []
                for s in uniq(work):
                    if s.key() not in seen:
                        seen[s.key()] = s
                        new.append(s)
                if not new or len(seen) > 4 * CAP:
                    break
                inn = []
                for s in new:
                    if test is not None:
                        s = self.scan(test, s)
                        x, y = self.refine(test, s, True), self.refine(test, s, False)
                        inn += [x] if x is not None else []
                        exits += [y] if y is not None else []
                    else:
                        exits.append(s)
                        inn.append(self.assign(st.target, ast.Name("?", ast.Load()), self.scan(st.iter, s)))
                f, b, c = self.block(st.body, inn)
                exits_b = b
                exits += exits_b
                work = f + c
            out = uniq(exits)
            if st.orelse:
                f, b, c = self.block(st.orelse, out)
                return f, b, c
            return out, [], []
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                states = [self.scan(i.context_expr, s) for s in states]
                if i.optional_vars is not None:
                    states = [self.assign(i.optional_vars, ast.Name("?", ast.Load()), s) for s in states]
            return self.block(st.body, states)
        if isinstance(st, ast.Try):
            mid, cur, br, co = list(states), list(states), [], []
            for x in st.body:
                cur, b, c = self.stmt(x, uniq(cur))
                br += b
                co += c
                mid += cur
            if st.orelse:
                cur, b, c = self.block(st.orelse, cur)
                br += b
                co += c
            out = list(cur)
            for h in st.handlers:
                f, b, c = self.block(h.body, uniq(mid))
                out += f
                br += b
                co += c
            if st.finalbody:
                out, b, c = self.block(st.finalbody, uniq(out))
                br += b
                co += c
            return out, br, co
        if isinstance(st, ast.Match):
            out, br, co = list(states), [], []
            for cse in st.cases:
                f, b, c = self.block(cse.body, states)
                out += f
                br += b
                co += c
            return out, br, co
        return states, [], []

    def run(self):
        self.bools = {n.id for n in ast.walk(self.fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.outer = {x for n in ast.walk(self.fn) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        end, _, _ = self.block(self.fn.body, [State()])
        for s in end:
            self.returns.append((s, N_, None))
        return self


def functions():
    p = project()
    for mn, m in sorted(p.mods.items()):
        if mn.startswith("ref_") or mn in ("log",) or mn.startswith("sly"):
            continue
        def walk(node, path):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield mn, ".".join(path + [n.name]), n
                    yield from walk(n, path + [n.name])
                elif isinstance(n, ast.ClassDef):
                    yield from walk(n, path + [n.name])
                elif not isinstance(n, (ast.Lambda,)):
                    yield from walk(n, path)
        yield from walk(m.tree, [])


def tested(fn, names, skip):
    """Is one of the names looked at in a condition, or handed back?"""
    for n in ast.walk(fn):
        tests = [n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) else [n] if isinstance(n, (ast.Compare, ast.BoolOp)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) else \
            [n.value] if isinstance(n, ast.Return) and n.value is not None else [n.subject] if isinstance(n, ast.Match) else n.ifs if isinstance(n, ast.comprehension) else []
        for t in tests:
            if any(place(x) and dotted(x) in names for x in ast.walk(t)):
                return True
    return False


def parents(fn):
    out = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def p17(rep):
    p = project()
    all_ = list(functions())
    flows = {}
    for mn, name, fn in all_:
        flows[mn, name] = Flow(fn, mn, set(), None).run()
    # 1. no success after a report
    failing = {}
    for (mn, name), f in flows.items():
        sites = [c for c in ast.walk(f.fn) if f.is_report(c)]
        at = f"{p.relpath(mn)}:{f.fn.lineno} ({name})"
        if not sites:
            continue
        can_fail = [v for _, v, _ in f.returns if v in FAIL] + [1 for s, _, _ in f.returns if s.mark] + [1 for n in ast.walk(f.fn) if isinstance(n, ast.Raise)]
        lines = {c.lineno: str(ast.unparse(c.args[0]))[:60] if c.args else "" for c in sites}
        bad = {}
        for s, v, node in f.returns:
            if s.err is None:
                continue
            if v in (T_, OK_):
                bad.setdefault((s.err, "claims success"), node)
            elif v == U_ and not s.mark and can_fail:
                bad.setdefault((s.err, "delivers a result"), node)
            elif node is None and not s.mark and can_fail and any(n.value is not None for _, _, n in f.returns if n is not None):
                pass
        for line, text in lines.items():
            hit = [(k, n) for k, n in bad.items() if k[0] == line]
            if not hit:
                rep.ok(what="reports", sample=f"{mn}.{name}: {text}")
            for (_, how), node in hit:
                rep.bad(f"report:{mn}.{name}:{text}", f"{name} reports {text} and then {how}" + (f" (line {node.lineno})" if node is not None else ""), f"{p.relpath(mn)}:{line}")
        if any(s.err is not None and v in FAIL and n is not None and not s.mark for s, v, n in f.returns) and any(v not in FAIL for _, v, _ in f.returns):
            failing[mn, name] = True
    # 2. nobody ignores a failure
    defs, methods = {(mn, name) for mn, name, _ in all_}, {}
    for mn, name, fn in all_:
        m = p.mods[mn]
        if "." in name and name.split(".")[0] in m.classes and name.count(".") == 1:
            methods.setdefault(name.split(".")[-1], []).append((mn, name))

    def resolve(mn, name, f):
        if isinstance(f, ast.Name):
            path = name.split(".")
            for i in range(len(path), -1, -1):
                if (mn, ".".join(path[:i] + [f.id])) in defs:
                    return mn, ".".join(path[:i] + [f.id])
            imp = p.mods[mn].imports.get(f.id)
            if imp and imp[0] == "from":
                src = p.modname(imp[1])
                return (src, imp[2]) if (src, imp[2]) in defs else None
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in p.mods[mn].imports:
                return (f.value.id, f.attr) if (f.value.id, f.attr) in defs else None
            own = methods.get(f.attr, [])
            # methods of library classes may have the same name
            return own[0] if len(own) == 1 and f.attr not in ("parse", "error", "run", "get", "read", "write", "add", "pop", "update", "format") else None
        return None
    for mn, name, fn in all_:
        up = None
        inner = {id(x) for g in ast.walk(fn) if isinstance(g, ast.FunctionDef) and g is not fn for x in ast.walk(g)}
        for c in ast.walk(fn):
            if id(c) in inner:
                continue
            if not isinstance(c, ast.Call):
                continue
            to = resolve(mn, name, c.func)
            if to not in failing:
                continue
            callee = to[1].split(".")[-1]
            up = up or parents(fn)
            par = up.get(id(c))
            key = f"call:{mn}.{name}:{callee}"
            at = f"{p.relpath(mn)}:{c.lineno} ({name})"
            what = f"{name} calls {callee}"
            if isinstance(par, ast.Expr):
                rep.bad(key, f"{what}, which reports failure, and ignores the result", at)
            elif isinstance(par, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                tgts = par.targets if isinstance(par, ast.Assign) else [par.target]
                names = {dotted(x) for t in tgts for x in ast.walk(t) if place(x)}
                if not names or tested(fn, names, None) or any("." in n or isinstance(t, ast.Subscript) for t in tgts for n in names):
                    rep.ok(what="calls", sample=what)
                else:
                    rep.bad(key, f"{what}, which reports failure, and never looks whether it failed", at)
            else:
                rep.ok(what="calls", sample=what)
