"""Python front end: project index and a gated-value dataflow analysis of Python functions.

The analysis walks the syntax tree once per function body (joining states at every merge, closing
loops by computing the set of loop-carried cells and a term for one symbolic iteration).  Nothing of
the analysed project is imported or executed.
"""
from __future__ import annotations
import ast, itertools, os
from . import dd
from .dd import T, C, Node, Term, leaf, const, TRUE, FALSE, NONE, ite, apply, and_, or_, not_, truth, atom


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ project index
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.mutable = {n for g in ast.walk(self.tree) if isinstance(g, ast.Global) for n in g.names}
        for st in self._toplevel(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = st
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, n in enumerate(t.elts):
                            if isinstance(n, ast.Name):
                                same = isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts)
                                self.assigns[n.id] = st.value.elts[i] if same else ast.Subscript(st.value, ast.Constant(i), ast.Load())
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", st.module or "", a.name, st.level)

    def _toplevel(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.If, ast.Try)):
                yield from self._toplevel(st.body)
                yield from self._toplevel(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    yield from self._toplevel(h.body)


class Project:
    def __init__(self, root, pkg="c2po", sub=("compiler", "c2po"), extra=None):
        self.root = root
        self.pkg = pkg
        self.dir = os.path.join(root, *sub)
        self.mods = {}
        for f in sorted(os.listdir(self.dir)):
            if f.endswith(".py"):
                self.mods[f[:-3]] = Module(f[:-3], os.path.join(self.dir, f))
        for f in sorted(os.listdir(extra)) if extra else ():
            if f.endswith(".py"):
                self.mods["ref_" + f[:-3]] = Module("ref_" + f[:-3], os.path.join(extra, f))
        self.class_of = {}
        for m in self.mods.values():
            for c in m.classes:
                self.class_of.setdefault(c, m.name)
        self._super = {}
        for c in self.class_of:
            self.supers(c)
        dd.SUPER.update(self._super)
        # method name -> classes that define it
        self.methods = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for st in c.body:
                    if isinstance(st, ast.FunctionDef):
                        self.methods.setdefault(st.name, []).append((m.name, c.name))

    def relpath(self, mod):
        return os.path.relpath(self.mods[mod].path, self.root)

    def supers(self, c):
        if c in self._super:
            return self._super[c]
        self._super[c] = s = {c}
        m = self.class_of.get(c)
        if m is None:
            return s
        for b in self.mods[m].classes[c].bases:
            n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
            if n:
                s |= self.supers(n) if n in self.class_of else {n}
        self._super[c] = s
        return s

    def is_enum(self, c):
        return bool(self.supers(c) & {"Enum", "IntEnum", "Flag", "IntFlag"})

    def cls(self, name):
        m = self.class_of.get(name)
        return self.mods[m].classes[name] if m else None

    def find_method(self, cname, meth):
        """(module, class, FunctionDef) following base classes."""
        seen, work = set(), [cname]
        while work:
            c = work.pop(0)
            if c in seen or c not in self.class_of:
                continue
            seen.add(c)
            cd = self.cls(c)
            for st in cd.body:
                if isinstance(st, ast.FunctionDef) and st.name == meth:
                    return self.class_of[c], c, st
            for b in cd.bases:
                n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
                if n:
                    work.append(n)
        return None

    def enum_members(self, c):
        """Ordered {member: value AST} of an enum class."""
        cd = self.cls(c)
        out = {}
        if cd:
            for st in cd.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    out[st.targets[0].id] = st.value
        return out

    def enum_canon(self, c, member):
        """Enum members with the same value are aliases: the first one is the canonical member."""
        mem = self.enum_members(c)
        if member not in mem:
            return None
        v = mem[member]
        try:
            val = ast.literal_eval(v)
        except Exception:
            return member
        for k, w in mem.items():
            try:
                if ast.literal_eval(w) == val and type(ast.literal_eval(w)) is type(val):
                    return k
            except Exception:
                pass
        return member

    def func(self, mod, name):
        m = self.mods.get(mod)
        if not m:
            return None
        if "." in name:
            c, f = name.split(".", 1)
            if c in m.classes:
                r = self.find_method(c, f)
                return r[2] if r else None
            return None
        return m.funcs.get(name)

    def modname(self, dotted):
        p = dotted.split(".")
        if p[0] == self.pkg and len(p) > 1 and p[1] in self.mods:
            return p[1]
        if dotted in self.mods:
            return dotted
        return None


# ------------------------------------------------------------------ analysis state
class St:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return St(dict(self.d))


SEQ0 = T("seq")
GONE = T("v", "$gone")
FLAGS = ("$ret", "$brk", "$cont")

STD_FOLD = {"os.path.splitext", "os.path.basename", "os.path.dirname", "shlex.quote", "shlex.split"}
STR_FOLD = {"split", "rsplit", "splitlines", "find", "rfind", "partition", "rpartition", "startswith", "endswith", "replace", "rstrip", "lstrip", "strip",
            "count", "index", "removeprefix", "removesuffix", "zfill", "ljust", "rjust"}
PURE_METHODS = {
    "strip", "lstrip", "rstrip", "split", "splitlines", "join", "lower", "upper", "startswith", "endswith", "format",
    "encode", "decode", "keys", "values", "items", "get", "index", "count", "isdigit", "isdecimal", "isnumeric", "copy",
    "find", "group", "groups", "union", "intersection", "difference", "issubset", "exists", "is_file", "is_dir", "hex", "replace",
}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update",
            "setdefault", "popitem"}
PURE_FUNCS = {
    "len", "str", "repr", "isinstance", "max", "min", "sum", "range", "enumerate", "zip", "sorted", "list", "set",
    "dict", "tuple", "any", "all", "id", "abs", "int", "bool", "float", "type", "getattr", "hasattr", "reversed",
    "hash", "map", "filter", "ord", "chr", "bytes", "hex", "round", "issubclass", "divmod", "pow", "bin", "next", "iter",
    "frozenset", "callable", "bytearray", "format", "vars", "super",
}


def const_path(t):
    """The path a term stands for, when it is constant."""
    if t.op == "call" and t.args[0] == "pathlib.Path" and len(t.args) == 2:
        n = t.args[1]
        n = n.leaf if isinstance(n, Node) else n
        if n is not None and n.op == "c" and isinstance(n.args[0], str):
            import pathlib
            return pathlib.PurePosixPath(n.args[0])
    return None


def failed(t):
    """The term stands for an exception."""
    return t.op in ("raise", "raise_index", "keyerror")


class Interp:
    """One analysis context.

    policy(fqname, fdef) -> True (inline), False (opaque call, recorded as effect), 'pure' (opaque, no effect)
    """

    def __init__(self, proj, policy=None, maxdepth=14):
        self.p = proj
        self.policy = policy or (lambda fq, fd: True)
        self.maxdepth = maxdepth
        self.uid = itertools.count()
        self.scope = itertools.count(1)
        self.clos = {}          # id -> (node, modname, scopechain, clsname)
        self.stack = []
        self.reclimit = 1  # how often a function may be entered while it is running
        self.where = {}
        self.cls_of_term = {}
        self.const_cache = {}
        self.loops = []         # (iter description, count term, summary dict) for every loop analysed
        self.calls = []         # (fqname, args, loc)
        self.pure_extra = set()
        self.effect_filter = None
        self.inline_ctors = set()
        self.method_cls = {}    # method name -> class to use for unknown receivers
        self.ignored_calls = {"log.debug", "log.warning", "log.stat", "print", "log.internal"}
        self.fold_replace = False      # symbolic texts do not contain what is replaced
        self.prints = False            # standard output is an effect
        self.logfx = {"log.error": "log.error"}
        self.notes = []
        self.speak = False      # follow __str__ and __repr__ of known objects
        self.texts = {}         # object -> the text it prints as
        self.eqmods = ()        # modules whose classes' __eq__ and constructors are followed
        self.eqonly = ()        # modules whose classes' __eq__ is followed
        self._objattr = {}
        self.work, self.clocks = (), ()     # names of calls that take time or answer anew each time; names of clocks
        self.models = {}        # fqname -> fn(interp, args, st): stands in for a function of the project
        self.unroll = 0         # > 0: loops over symbolic sequences run at most this often ($trunc marks the rest)
        self.lives = []         # conditions under which the statement being run is reached

    # ---------------------------------------------------------- cells
    def default(self, k):
        if k == "$io":
            return leaf(SEQ0)
        if k in FLAGS or k == "$trunc":
            return FALSE
        if k == "$rv":
            return NONE
        if k[0] == "at":
            return self.attr_default(k[1], k[2])
        if k[0] == "ct":
            return leaf(k[1])
        if k[0] == "work":
            return const(0)
        if k[0] == "l":
            return leaf(T("undef", k[2]))
        raise KeyError(k)

    def get(self, st, k):
        v = st.d.get(k)
        return v if v is not None else self.default(k)

    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        out = {}
        for k in a.d.keys() | b.d.keys():
            va, vb = self.get(a, k), self.get(b, k)
            out[k] = va if va is vb else ite(c, va, vb)
        return St(out)

    def per_leaf(self, node, st, fn):
        """Run fn(leafterm, state)->value for each leaf, merging states; returns the merged value."""
        if node.leaf is not None:
            return fn(node.leaf, st)
        groups = {}
        order_ = []
        for l in dd.leaves(node):
            order_.append(l)
        res, acc = None, None
        for l in order_:
            g = apply(lambda t, l=l: TRUE if t is l else FALSE, node)
            s2 = st.copy()
            v = fn(l, s2)
            if acc is None:
                acc, res = s2, v
            else:
                acc = self.merge(g, s2, acc)
                res = ite(g, v, res)
        st.d = acc.d
        return res

    # materialised value: fresh containers replaced by their current content
    def shallow(self, n, st):
        """The container(s) n denotes, their elements unresolved."""
        for _ in range(4):
            if not any(("ct", t) in st.d for t in dd.leaves(n)):
                break
            n = apply(lambda t: st.d[("ct", t)] if ("ct", t) in st.d else leaf(t), n)
        return n

    def val(self, n, st, depth=0):
        if depth > 6:
            return n
        if n.leaf is not None and n.leaf.op not in ("alloc", "list", "tuple", "obj", "dict") and ("ct", n.leaf) not in st.d:
            return n

        def f(t):
            k = ("ct", t)
            if k in st.d:
                v = st.d[k]
                return self.val(v, st, depth + 1) if v is not leaf(t) else v
            if t.op in ("list", "tuple", "obj", "dict", "splice") and any(isinstance(a, Term) and self._has_alloc(a, st) for a in t.args):
                ns = [self.val(leaf(a), st, depth + 1) if isinstance(a, Term) else a for a in t.args]
                pos = [i for i, a in enumerate(t.args) if isinstance(a, Term)]

                def build(*ls):
                    args = list(t.args)
                    for i, l in zip(pos, ls):
                        args[i] = l
                    return leaf(T(t.op, *args))
                return apply(build, *[ns[i] for i in pos])
            return leaf(t)
        return apply(f, n)

    def _has_alloc(self, t, st):
        return dd.contains(t, lambda x: x.op == "alloc" or ("ct", x) in st.d)

    # ---------------------------------------------------------- entry points
    def params(self, mod, fname):
        fd = self.p.func(mod, fname)
        return [a.arg for a in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs] if fd is not None else []

    def run(self, mod, fname, args=None, st=None, cls=None, called=None):
        """Analyse function `fname` of module; returns (retval Node, state).  `called` gives the parameters their names in order."""
        fd = self.p.func(mod, fname)
        if fd is None:
            raise Unsupported(f"{mod}.{fname} not found")
        cname = fname.split(".")[0] if "." in fname else None
        st = st or St()
        names = [a.arg for a in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs]
        bind = {}
        for i, n in enumerate(names):
            c = called[i] if called and i < len(called) else n
            if args and (c in args or n in args):
                bind[n] = args[c] if c in args else args[n]
            else:
                t = T("v", c)
                bind[n] = leaf(t)
                if n == "self" and cname:
                    self.cls_of_term[t] = cname
        for a in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs:
            c = self.ann_class(a.annotation)
            if c and bind[a.arg].leaf is not None:
                self.cls_of_term.setdefault(bind[a.arg].leaf, c)
        rv = self.body(fd, mod, bind, st, [], cname)
        return rv, st

    def ann_class(self, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Attribute) and ann.attr in self.p.class_of:
            return ann.attr
        if isinstance(ann, ast.Name) and ann.id in self.p.class_of:
            return ann.id
        return None

    def body(self, fd, mod, bind, st, chain, cls):
        sc = next(self.scope)
        for n, v in bind.items():
            st.d[("l", sc, n)] = v
        saved = {k: st.d.get(k) for k in ("$ret", "$rv", "$brk", "$cont")}
        for k in FLAGS:
            st.d[k] = FALSE
        st.d["$rv"] = NONE
        fr = Frame(self, mod, [sc] + chain, cls, fd)
        self.stack.append(fd)
        try:
            if isinstance(fd, ast.Lambda):
                rv = self.ev(fd.body, st, fr)
            else:
                self.block(fd.body, st, fr)
                rv = self.get(st, "$rv")
        finally:
            self.stack.pop()
        for k, v in saved.items():
            if v is None:
                st.d.pop(k, None)
            else:
                st.d[k] = v
        # locals are dead now unless captured by a closure that escapes
        esc = any(info[2] and sc in info[2] for info in self.clos.values())
        if not esc:
            for k in [k for k in st.d if k[0] == "l" and k[1] == sc]:
                del st.d[k]
        # propagate exceptions: a raise in the callee ends the caller too
        exc = apply(lambda t: TRUE if t.op == "raise" else FALSE, rv)
        if exc is not FALSE:
            st.d["$ret"] = or_(self.get(st, "$ret"), exc)
            st.d["$rv"] = ite(exc, rv, self.get(st, "$rv"))
        return rv

    # ---------------------------------------------------------- statements
    def block(self, body, st, fr):
        for s in body:
            live = not_(or_(*[self.get(st, k) for k in FLAGS]))
            if live is FALSE:
                return
            if live is TRUE:
                self.stmt(s, st, fr)
            else:
                s2 = st.copy()
                for k in FLAGS:
                    s2.d[k] = FALSE
                self.lives.append(live)
                try:
                    self.stmt(s, s2, fr)
                finally:
                    self.lives.pop()
                m = self.merge(live, s2, st)
                st.d = m.d

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    s_Import = s_ImportFrom = s_Pass

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(s.value.value, st, fr) if s.value.value else NONE
            self.effect(st, "yield" if isinstance(s.value, ast.Yield) else "yield_from", [v], s)
            return
        if isinstance(s.value, (ast.ListComp, ast.SetComp)):
            # used as a statement: run as a loop
            self.comp_loop(s.value.generators, 0, st, fr, lambda st2: self.ev(s.value.elt, st2, fr))
            return
        self.ev(s.value, st, fr)
        if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit"):
            st.d["$rv"] = leaf(T("raise", "SystemExit"))
            st.d["$ret"] = TRUE

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value else NONE
        live = not_(self.get(st, "$ret"))
        st.d["$rv"] = ite(live, v, self.get(st, "$rv"))
        st.d["$ret"] = TRUE

    def s_Raise(self, s, st, fr):
        name = "reraise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "exception"
        st.d["$rv"] = leaf(T("raise", name))
        st.d["$ret"] = TRUE

    def s_Break(self, s, st, fr):
        st.d["$brk"] = TRUE

    def s_Continue(self, s, st, fr):
        st.d["$cont"] = TRUE

    def s_Assert(self, s, st, fr):
        pass

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.val(self.ev(t.slice, st, fr), st)
                self.mutate(st, b, lambda c, kk: (lambda r: r if r.op != "popped" else T("del", c, kk))(mk_popped(c, kk)), [k])
            elif isinstance(t, ast.Name):
                st.d.pop(fr.lookup_key(t.id, st), None)

    def s_FunctionDef(self, s, st, fr):
        i = next(self.uid)
        self.clos[i] = (s, fr.mod, list(fr.chain), fr.cls)
        st.d[fr.assign_key(s.name)] = leaf(T("clos", i))

    def s_ClassDef(self, s, st, fr):
        # an enumeration local to a function
        if any(getattr(b, "attr", getattr(b, "id", "")) in ("Enum", "IntEnum") for b in s.bases) and self.p.class_of.get(s.name, fr.mod) == fr.mod:
            self.p.class_of[s.name] = fr.mod
            self.p.mods[fr.mod].classes[s.name] = s
            st.d[fr.assign_key(s.name)] = leaf(T("g", fr.mod, s.name))

    def s_If(self, s, st, fr):
        c = truth(self.val(self.ev(s.test, st, fr), st))
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a, b = st.copy(), st.copy()
        self.block(s.body, a, fr)
        self.block(s.orelse, b, fr)
        st.d = self.merge(c, a, b).d

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)

        def go(i, st):
            if i == len(s.cases):
                return
            c = s.cases[i]
            a = st.copy()
            g = self.pattern(c.pattern, subj, a, fr)
            if c.guard is not None:
                g = and_(g, truth(self.ev(c.guard, a, fr)))
            if g is FALSE:
                return go(i + 1, st)
            self.block(c.body, a, fr)
            b = st.copy()
            go(i + 1, b)
            st.d = self.merge(g, a, b).d
        go(0, st)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.cmp_eq(subj, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.cmp_eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(q, subj, st, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            g = self.pattern(p.pattern, subj, st, fr) if p.pattern else TRUE
            if p.name:
                st.d[fr.assign_key(p.name)] = subj
            return g
        if isinstance(p, ast.MatchClass) and not p.patterns:
            g = self.isinst(subj, self.ev(p.cls, st, fr))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                g = and_(g, self.pattern(q, self.getattr(subj, a, st, fr), st, fr))
            return g
        raise Unsupported("match pattern")

    def grown(self, s, st, fr):
        """`x = x + e` and `x = [*x, ...]` with a list nothing else refers to: the same as growing it in place."""
        if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
            return None
        n, e = s.targets[0].id, s.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.left, ast.Name) and e.left.id == n:
            more = e.right
        elif isinstance(e, ast.List) and e.elts and isinstance(e.elts[0], ast.Starred) and isinstance(e.elts[0].value, ast.Name) and e.elts[0].value.id == n:
            more = ast.copy_location(ast.List(e.elts[1:], ast.Load()), e)
        else:
            return None
        k = fr.assign_key(n)
        cur = st.d.get(k)
        if cur is not None and cur.leaf is None:
            cur = self.here(cur)
        if cur is None or cur.leaf is None or cur.leaf.op != "alloc" or any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(more)):
            return None
        if st.d.get(("ct", cur.leaf)) is None:
            return None
        for q, v in st.d.items():
            if q != k and q != ("ct", cur.leaf) and any(dd.contains(t, lambda x: x is cur.leaf) for t in dd.leaves(v)):
                return None
        return cur, more

    def s_Assign(self, s, st, fr):
        g = self.grown(s, st, fr)
        if g is not None:
            v = self.val(self.ev(g[1], st, fr), st)
            if all(t.op in ("list", "flatmap", "fixl") or not failed(t) for t in dd.leaves(v)):
                self.mutate(st, g[0], lambda c, x: self.t_extend(c, x), [v])
                return
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        if isinstance(s.target, ast.Name):
            c = self.ann_class(s.annotation)
            if c and s.value is not None:
                v = self.get(st, fr.lookup_key(s.target.id, st))
                if v.leaf is not None and v.leaf.op not in ("c",):
                    self.cls_of_term.setdefault(v.leaf, c)

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(_load(s.target), st, fr)
        v = self.ev(s.value, st, fr)
        if isinstance(s.op, ast.Add) and any(l.op == "alloc" or ("ct", l) in st.d for l in dd.leaves(cur)):
            self.mutate(st, cur, lambda c, x: self.t_extend(c, x), [self.val(v, st)])
            return
        self.assign(s.target, self.binop(type(s.op).__name__, self.val(cur, st), self.val(v, st)), st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.d[fr.assign_key(t.id)] = v
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.setattr(base, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                lo = self.val(self.ev(t.slice.lower, st, fr), st) if t.slice.lower else NONE
                hi = self.val(self.ev(t.slice.upper, st, fr), st) if t.slice.upper else NONE
                self.mutate(st, base, lambda c, a, b, x: T("slicestore", c, a, b, x), [lo, hi, self.val(v, st)])
                return
            k = self.val(self.ev(t.slice, st, fr), st)
            self.mutate(st, base, mk_store, [k, v])
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star:
                    raise Unsupported("starred assignment")
                self.assign(e, self.index(v, const(i), st), st, fr)
        else:
            raise Unsupported("assignment target")

    def setattr(self, base, name, v, st):
        for l in dd.leaves(base):
            g = apply(lambda t, l=l: TRUE if t is l else FALSE, base)
            k = ("at", l, name)
            st.d[k] = ite(g, v, self.get(st, k)) if g is not TRUE else v

    def here(self, base):
        """`base` as it is on the paths that get here."""
        if base.leaf is not None or not self.lives:
            return base
        r = ite(and_(*self.lives), base, leaf(GONE))
        return self.without(r)

    def without(self, r):
        left = [t for t in dd.leaves(r) if t is not GONE]
        if len(left) == 1:
            return leaf(left[0])
        return r

    def mutate(self, st, base, fn, args):
        """Functional update of the container(s) `base` denotes."""
        base = self.here(base)
        for l in dd.leaves(base):
            if l is GONE:
                continue
            g = apply(lambda t, l=l: TRUE if t is l else FALSE, base)
            k = ("ct", l)
            old = self.get(st, k)
            new = apply(lambda c, *a: _asnode(fn(c, *a)), old, *args)
            st.d[k] = ite(g, new, old) if g is not TRUE else new

    def effect(self, st, name, args, node, live=None):
        args = [self.val(a, st) for a in args]
        io = self.get(st, "$io")

        def f(s, *ls):
            e = T("eff", name, *ls)
            self.where.setdefault(e, (self.cur_file(), getattr(node, "lineno", 0)))
            return leaf(T("seq", s, e))
        st.d["$io"] = apply(f, io, *args)
        if name[:1] == "." and name[1:] in self.work:
            st.d["work", "n"] = self.add_leafs(self.get(st, ("work", "n")), 1)

    def cur_file(self):
        return self._fr.mod if getattr(self, "_fr", None) else "?"

    def s_Try(self, s, st, fr):
        before = st.copy()
        self.block(s.body, st, fr)
        self.block(s.orelse, st, fr)
        for h in s.handlers:
            tn = "any"
            if h.type is not None:
                tn = ast.unparse(h.type)
            n = fr.exc_count.get(tn, 0)
            fr.exc_count[tn] = n + 1
            a = atom(T("b", "exc", tn, n))
            s2 = before.copy()
            if h.name:
                s2.d[fr.assign_key(h.name)] = leaf(T("exc", tn, n))
            self.block(h.body, s2, fr)
            st.d = self.merge(a, s2, st).d
        self.block(s.finalbody, st, fr)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)

    # ---------------------------------------------------------- loops
    def s_While(self, s, st, fr):
        self.loop(st, fr, None, lambda s2, i: truth(self.val(self.ev(s.test, s2, fr), s2)),
                  lambda s2, i: self.block(s.body, s2, fr), s)
        if s.orelse:
            raise Unsupported("while-else")

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        top = self.shallow(it, st)
        # the items of a literal sequence keep their identity: the body may change them in place
        it = top if all(t.op in ("list", "tuple") and self.literal_items(t) is not None for t in dd.leaves(top)) else self.val(it, st)
        self.for_over(it, st, fr, lambda el, s2: (self.assign(s.target, el, s2, fr), self.block(s.body, s2, fr)), s, True)
        if s.orelse:
            # for-else: runs when not broken out of; only with no break inside
            self.block(s.orelse, st, fr)

    def for_over(self, it, st, fr, bodyfn, node, is_stmt=False):
        def one(seq, s2):
            if failed(seq):
                return NONE
            items = self.literal_items(seq)
            if items is not None:
                for x in items:
                    live = not_(or_(*[self.get(s2, k) for k in FLAGS]))
                    if live is FALSE:
                        break
                    s3 = s2.copy()
                    for k in FLAGS:
                        s3.d[k] = FALSE
                    bodyfn(leaf(x), s3)
                    s3.d["$cont"] = FALSE
                    s2.d = self.merge(live, s3, s2).d
                s2.d["$brk"] = FALSE
                return NONE
            self.loop(s2, fr, seq, None, lambda s3, i: self.guarded_body(seq, i, s3, bodyfn), node)
            return NONE
        self.per_leaf(it, st, one)

    def literal_items(self, seq):
        if seq.op in ("list", "tuple", "set"):
            if any(a.op == "splice" for a in seq.args):
                return None
            return list(seq.args)
        if seq.op == "dict":
            return [seq.args[i] for i in range(0, len(seq.args), 2)]
        if seq.op == "call" and seq.args[0] in ("range",) and all(dd.is_num(a) for a in seq.args[1:]):
            r = range(*[a.args[0] for a in seq.args[1:]])
            if len(r) <= 16:
                return [C(i) for i in r]
        if seq.op == "call" and seq.args[0] in ("enumerate",):
            x = self.literal_items(seq.args[1])
            if x is not None:
                return [T("tuple", C(i), e) for i, e in enumerate(x)]
        if seq.op == "call" and seq.args[0] in ("zip",):
            xs = [self.literal_items(a) for a in seq.args[1:]]
            if all(x is not None for x in xs):
                return [T("tuple", *e) for e in zip(*xs)]
        if seq.op == "call" and seq.args[0] in ("list", "tuple", "iter") and len(seq.args) == 2:
            return self.literal_items(seq.args[1])
        if seq.op == "call" and seq.args[0] == "reversed":
            x = self.literal_items(seq.args[1])
            return x[::-1] if x is not None else None
        if seq.op == "mcall" and seq.args[0] in ("items", "keys", "values") and seq.args[1].op == "dict":
            d = seq.args[1].args
            if seq.args[0] == "items":
                return [T("tuple", d[i], d[i + 1]) for i in range(0, len(d), 2)]
            if seq.args[0] == "keys":
                return [d[i] for i in range(0, len(d), 2)]
            return [d[i + 1] for i in range(0, len(d), 2)]
        return None

    def guarded_body(self, seq, i, st, bodyfn):
        """Run the loop body for position i of seq, looking through list comprehensions."""
        if seq.op == "flatmap":
            h, cnt, bodynode = seq.args
            iv = T("ivar", h)
            b = dd.subst(bodynode, lambda t: leaf(i) if t is iv else None)
            inner = b

            def f(t, s2):
                if t.op == "list":
                    for x in t.args:
                        if x.op == "splice":
                            raise Unsupported("nested splice iteration")
                        s3 = s2.copy()
                        live = not_(or_(*[self.get(s2, k) for k in FLAGS]))
                        bodyfn(leaf(x), s3)
                        s2.d = self.merge(live, s3, s2).d
                return NONE
            self.per_leaf(inner, st, f)
            return
        bodyfn(self.elem(seq, i), st)

    def elem(self, seq, i):
        """Element i (a term) of the sequence term."""
        if seq.op == "call":
            n = seq.args[0]
            a = seq.args[1:]
            if n == "range":
                if len(a) == 1:
                    return leaf(i)
                if len(a) == 2 or dd.is_num(a[2]) and a[2].args[0] == 1:
                    return leaf(dd.lin_add(a[0], i))
                return dd.apply(lambda s: leaf(dd.lin_add(a[0], s)), dd.mul_leaf(a[2], i))
            if n == "enumerate":
                e = self.elem(a[0], i)
                k = dd.lin_add(i, a[1]) if len(a) > 1 else i
                return apply(lambda x: leaf(T("tuple", k, x)), e)
            if n == "zip":
                return apply(lambda *xs: leaf(T("tuple", *xs)), *[self.elem(x, i) for x in a])
            if n in ("list", "tuple", "iter"):
                return self.elem(a[0], i)
        if seq.op == "mcall" and seq.args[0] == "items":
            d = seq.args[1]
            return leaf(T("tuple", T("key", d, i), T("idx", d, T("key", d, i))))
        if seq.op == "mcall" and seq.args[0] == "values":
            d = seq.args[1]
            return leaf(T("idx", d, T("key", d, i)))
        if seq.op == "mcall" and seq.args[0] == "keys":
            return leaf(T("key", seq.args[1], i))
        return self.index(leaf(seq), leaf(i), None)

    def count(self, seq):
        if seq.op == "call":
            n, a = seq.args[0], seq.args[1:]
            if n == "range":
                if len(a) == 1:
                    return a[0]
                if len(a) == 2:
                    return dd.lin_add(a[1], a[0], -1)
                return T("rcount", *a)
            if n == "enumerate":
                return self.count(a[0])
            if n == "zip":
                cs = {self.count(x) for x in a}
                if len(cs) == 1:
                    return cs.pop()
                return T("zipcount", *sorted(cs, key=lambda t: t.id))
            if n in ("list", "tuple", "iter"):
                return self.count(a[0])
        if seq.op == "mcall" and seq.args[0] in ("items", "values", "keys"):
            return T("len", seq.args[1])
        if seq.op == "flatmap":
            return seq.args[1]
        return T("len", seq)

    def unrolled(self, st, seq, condfn, bodyfn):
        cnt = self.count(seq) if seq is not None else None
        for i in range(self.unroll + 1):
            live = not_(or_(*[self.get(st, k) for k in FLAGS]))
            if live is FALSE:
                break
            s2 = st.copy()
            for k in FLAGS:
                s2.d[k] = FALSE
            go = self.more(cnt, i) if condfn is None else condfn(s2, C(i))
            if i == self.unroll:
                st.d["$trunc"] = or_(self.get(st, "$trunc"), and_(live, go))
                break
            s3 = s2.copy()
            if go is not FALSE:
                bodyfn(s3, C(i))
                s3.d["$cont"] = FALSE
            if condfn is not None:
                s2.d["$brk"] = TRUE
            st.d = self.merge(live, self.merge(go, s3, s2), st).d
        st.d["$brk"] = FALSE

    def more(self, cnt, i):
        """Does the sequence have a position i?"""
        if cnt.op == "zipcount":
            return and_(*[self.more(c, i) for c in cnt.args])
        if cnt.op == "rcount":
            return atom(T("b", "more", cnt, C(i)))
        return dd.le0(dd.lin_add(C(i + 1), cnt, -1))

    def loop(self, st, fr, seq, condfn, bodyfn, node):
        """Close a loop: find carried cells, build one symbolic iteration, and bind results."""
        if self.unroll:
            return self.unrolled(st, seq, condfn, bodyfn)
        lid = next(self.uid)
        iv = T("tmpiv", lid)
        M = {}
        for _round in range(12):
            uid0 = next(self.uid)
            sc0 = next(self.scope)
            s0 = st.copy()
            cars = {}
            for k in M:
                cars[k] = T("tmpcar", lid, M[k])
                s0.d[k] = leaf(cars[k])
            s0.d["$brk"] = FALSE
            s0.d["$cont"] = FALSE
            s0.d["$ret"] = FALSE
            base = dict(s0.d)
            nloops = len(self.loops)
            cond = condfn(s0, iv) if condfn else None
            bodyfn(s0, iv)
            changed = []
            for k, v in s0.d.items():
                if k in ("$cont",):
                    continue
                old = base.get(k)
                if old is None:
                    if k[0] == "l" and k[1] >= sc0:
                        continue
                    if k[0] in ("ct", "at") and k[1].op == "alloc" and k[1].args[0] >= uid0:
                        continue
                    # objects named by a finished inner loop's symbols, or built in this iteration, cannot be
                    # reached under that name by the next iteration
                    if k[0] in ("ct", "at") and dd.contains(k[1], lambda x: (x.op in ("tmpiv", "tmpcar") and x.args[0] > lid)
                                                            or (x.op == "alloc" and x.args[0] >= uid0)):
                        continue
                    if k[0] in ("ct", "at") and k[1].op == "obj" and dd.contains(k[1], lambda x: x is iv):
                        continue
                    old = self.default(k)
                if v is not old:
                    changed.append(k)
            new = [k for k in changed if k not in M]
            # flags and locals that the body always sets before reading need no carrying but are harmless
            new = [k for k in new if k not in FLAGS and k != "$rv"]
            if not new:
                break
            for k in new:
                M[k] = len(M)
            del self.loops[nloops:]
        else:
            raise Unsupported("loop did not stabilise")
        for k in M:
            if k[0] == "l" and k in st.d and any(t.op == "alloc" for t in dd.leaves(self.here(st.d[k]))):
                if any(t is not cars[k] and t.op not in ("alloc", "list", "tuple", "c") for t in dd.leaves(self.get(s0, k))):
                    raise Unsupported("a container is replaced by a computed one in a loop")
        cnt = self.count(seq) if seq is not None else None
        exit_ = or_(self.get(s0, "$brk"), self.get(s0, "$ret"))
        upd = {}
        for k in M:
            v = self.get(s0, k)
            upd[k] = self.val(v, s0) if k[0] != "l" else self.val(v, s0)
        rv = self.val(self.get(s0, "$rv"), s0)
        ret = self.get(s0, "$ret")
        sysd = LoopSys(self, lid, iv, M, upd, cond, cnt, exit_, st)
        self.loops.append(LoopInfo(seq, cnt, iv, dict(upd), {k: cars[k] for k in M}, exit_, ret, rv, node, fr.mod,
                                   dict(s0.d)))
        res = {}
        for k in M:
            if k[0] == "l" and k not in st.d:
                # local first assigned in the loop: dead afterwards in nearly all code
                if not fr.read_outside(k[2], node):
                    continue
            res[k] = sysd.final(k)
        if ret is not FALSE:
            newret = sysd.flag(ret)
            st_rv = self.get(st, "$rv")
            fin = sysd.first(ret, rv)
            st.d["$rv"] = ite(newret, fin, st_rv)
            st.d["$ret"] = newret
        for k, v in res.items():
            st.d[k] = v

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self._fr = fr
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is Ellipsis:
            return NONE
        return const(v)

    def e_Name(self, e, st, fr):
        k = fr.lookup_key(e.id, st)
        if k is not None:
            return st.d[k]
        if e.id in self.p.mods[fr.mod].mutable:
            return self.get(st, ("at", T("m", fr.mod), e.id))
        return self.global_(fr.mod, e.id)

    def global_(self, mod, name):
        m = self.p.mods[mod]
        if name in m.funcs or name in m.classes:
            return leaf(T("g", mod, name))
        if name in m.assigns:
            return self.module_const(mod, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                pm = self.p.modname(imp[1])
                return leaf(T("m", pm or imp[1]))
            _, frm, nm, lvl = imp
            pm = self.p.modname((self.p.pkg + "." + nm) if frm in ("", self.p.pkg) else "")
            if (frm == self.p.pkg or (lvl and not frm)) and nm in self.p.mods:
                return leaf(T("m", nm))
            src = self.p.modname(frm)
            if src:
                return self.global_(src, nm)
            return leaf(T("g", frm, nm))
        return leaf(T("g", "builtins", name))

    def module_const(self, mod, name):
        key = (mod, name)
        if key in self.const_cache:
            return self.const_cache[key]
        self.const_cache[key] = leaf(T("v", f"{mod}.{name}"))
        e = self.p.mods[mod].assigns[name]
        if _literalish(e):
            st = St()
            fr = Frame(self, mod, [next(self.scope)], None, None)
            saved = getattr(self, "_fr", None)
            try:
                v = self.val(self.ev(e, st, fr), st)
                self.const_cache[key] = v
            except (Unsupported, dd.Blowup):
                pass
            self._fr = saved
        return self.const_cache[key]

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.ev(e.value, st, fr), e.attr, st, fr)

    def getattr(self, base, name, st, fr):
        def f(t):
            q = const_path(t)
            if q is not None and name in ("suffix", "name", "stem"):
                return const(getattr(q, name))
            if t.op == "m":
                if t.args[0] in self.p.mods:
                    if name in self.p.mods[t.args[0]].mutable:
                        return self.get(st, ("at", t, name))
                    return self.global_(t.args[0], name)
                return leaf(T("g", t.args[0], name))
            if t.op == "g" and t.args[1] in self.p.class_of and self.p.class_of[t.args[1]] == t.args[0]:
                c = t.args[1]
                if self.p.is_enum(c) and name in self.p.enum_members(c):
                    return leaf(T("enum", c, self.p.enum_canon(c, name)))
                r = self.p.find_method(c, name)
                if r:
                    return leaf(T("g", r[0], f"{r[1]}.{name}"))
                return leaf(T("attr", t, name))
            if t.op == "g":
                return leaf(T("g", t.args[0], f"{t.args[1]}.{name}"))
            if t.op == "enum" and name in ("value", "name"):
                if name == "name":
                    return const(t.args[1])
                v = self.p.enum_members(t.args[0]).get(t.args[1])
                try:
                    return const(ast.literal_eval(v))
                except Exception:
                    return leaf(T("attr", t, name))
            k = ("at", t, name)
            v = st.d.get(k)
            if v is not None:
                return v
            return self.attr_default(t, name)
        return apply(f, base)

    def attr_default(self, t, name):
        if t.op == "obj":
            v = self.obj_attr(t, name)
            if v is not None:
                return v
        return leaf(T("attr", t, name))

    def obj_attr(self, t, name):
        """Field of a freshly constructed object, from its constructor's plain `self.f = param` stores."""
        c = t.args[0]
        fields = ctor_fields(self.p, c)
        params = ctor_params(self.p, c)
        if params is None:
            return None
        if name in fields:
            src = fields[name]
            if src in params:
                i = params.index(src)
                if i + 1 < len(t.args):
                    return leaf(t.args[i + 1])
        if self.p.class_of.get(c) in self.eqmods:
            if (t, name) not in self._objattr:
                self._objattr[t, name] = None
                r = self.p.find_method(c, "__init__")
                s2 = St()
                if r:
                    self.inline(r[2], r[0], [leaf(t)] + [leaf(a) for a in t.args[1:]], {}, s2, [], r[1], self._fr)
                v = s2.d.get(("at", t, name))
                self._objattr[t, name] = self.val(v, s2) if v is not None else None
            return self._objattr[t, name]
        return None

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            b = self.val(b, st)
            parts = [self.val(self.ev(x, st, fr), st) if x is not None else NONE
                     for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return apply(self.t_slice, b, *parts)
        k = self.ev(e.slice, st, fr)
        return self.index(b, k, st)

    def t_slice(self, b, lo, hi, step):
        if b.op in ("list", "tuple") and not any(a.op == "splice" for a in b.args):
            try:
                g = lambda x: x.args[0] if x.op == "c" else 1 / 0
                return leaf(T(b.op, *b.args[slice(g(lo), g(hi), g(step))]))
            except ZeroDivisionError:
                pass
        if b.op == "c" and isinstance(b.args[0], (str, bytes)):
            try:
                g = lambda x: x.args[0] if x.op == "c" else 1 / 0
                return const(b.args[0][slice(g(lo), g(hi), g(step))])
            except ZeroDivisionError:
                pass
        if lo is NONE.leaf or (lo.op == "c" and lo.args[0] == 0):
            lo = C(0)
        if b.op == "cat" and lo == C(0) and step is NONE.leaf and hi.op == "c" and isinstance(hi.args[0], int) and hi.args[0] < 0:
            end = b.args[-1]
            if end.op == "c" and isinstance(end.args[0], (str, bytes)) and len(end.args[0]) >= -hi.args[0]:
                return leaf(mk_cat(b.args[:-1] + (C(end.args[0][:hi.args[0]]),)))
        return leaf(T("slice", b, lo, hi, step))

    def index(self, b, k, st):
        if st is not None:
            # look through current content without losing element identity
            b = apply(lambda t: st.d[("ct", t)] if ("ct", t) in st.d else leaf(t), b)
            k = self.val(k, st)
        return apply(self.t_index, b, k)

    def t_index(self, b, k):
        if b.op in ("list", "tuple") and k.op == "c" and isinstance(k.args[0], int):
            i = k.args[0]
            if not any(a.op == "splice" for a in b.args):
                if -len(b.args) <= i < len(b.args):
                    return leaf(b.args[i])
                return leaf(T("raise_index", b, k))
            if i >= 0 and not any(a.op == "splice" for a in b.args[:i + 1]) and i < len(b.args):
                return leaf(b.args[i])
            if i < 0 and not any(a.op == "splice" for a in b.args[i:]) and -i <= len(b.args):
                return leaf(b.args[i])
        if b.op == "call" and b.args[0] in ("list", "tuple") and len(b.args) == 2 and b.args[1].op == "set" and k.op == "c" and isinstance(k.args[0], int) \
                and all(a.op == "o" for a in b.args[1].args) and 0 <= k.args[0] < len(b.args[1].args):
            # the members come out in some order; the one in which the model walks them
            return leaf(b.args[1].args[k.args[0]])
        if b.op == "dict":
            r = leaf(T("keyerror", b, k))
            for i in range(len(b.args) - 2, -2, -2):
                r = ite(dd.eq_leaf(k, b.args[i]), leaf(b.args[i + 1]), r)
            return r
        if b.op == "store":
            return ite(dd.eq_leaf(b.args[1], k), leaf(b.args[2]), self.t_index(b.args[0], k))
        if b.op == "flatmap" and len(b.args) == 3:
            h, cnt, body = b.args
            if body.leaf is not None and body.leaf.op == "list" and len(body.leaf.args) == 1 and body.leaf.args[0].op != "splice":
                iv = T("ivar", h)
                if not (k.op == "c" and k.args[0] < 0):
                    return dd.subst(leaf(body.leaf.args[0]), lambda t: leaf(k) if t is iv else None)
        if b.op == "seqof":
            return self.elem(b.args[0], k)
        return leaf(T("idx", b, k))

    def e_Tuple(self, e, st, fr):
        return self.build("tuple", e.elts, st, fr)

    def build(self, op, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.val(self.ev(x.value, st, fr), st)
                parts.append(apply(lambda t: leaf(T("splice", t)), v))
            else:
                parts.append(self.ev(x, st, fr))
        return apply(lambda *ts: leaf(mk_list(op, ts)), *parts)

    def e_List(self, e, st, fr):
        return self.alloc(self.build("list", e.elts, st, fr), st)

    def e_Set(self, e, st, fr):
        return self.alloc(self.build("set", e.elts, st, fr), st)

    def e_Dict(self, e, st, fr):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                inner = self.val(self.ev(v, st, fr), st)
                if inner.leaf is not None and inner.leaf.op == "dict":
                    for a in inner.leaf.args:
                        parts.append(leaf(a))
                    continue
                raise Unsupported("dict unpacking")
            parts.append(self.ev(k, st, fr))
            parts.append(self.ev(v, st, fr))
        return self.alloc(apply(lambda *ts: leaf(T("dict", *ts)), *parts) if parts else leaf(T("dict")), st)

    def alloc(self, content, st):
        t = T("alloc", next(self.uid))
        st.d[("ct", t)] = content
        return leaf(t)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(self.ev(v.value, st, fr), st)
                conv = {114: "repr", 115: "str", 97: "ascii"}.get(v.conversion, "str")
                spec = None
                if v.format_spec is not None:
                    spec = self.val(self.ev(v.format_spec, st, fr), st)
                    parts.append(apply(lambda t, s: leaf(T("fmt", t, s)) if not (s.op == "c" and s.args[0] == "") else leaf(mk_str(conv, t)), x, spec))
                else:
                    parts.append(self.say(conv, x, st, fr, e))
        return apply(lambda *ts: leaf(mk_cat(ts)), *parts) if parts else const("")

    def say(self, conv, x, st, fr, e):
        """str(x) or repr(x)."""
        if self.speak and x.leaf is not None:
            c = self.recv_class(x.leaf)
            if c and self.p.find_method(c, f"__{conv}__"):
                return self.val(self.method(x.leaf, f"__{conv}__", [], {}, st, fr, e), st)
        return apply(lambda t: leaf(mk_str(conv, t)), x)

    def e_IfExp(self, e, st, fr):
        c = truth(self.val(self.ev(e.test, st, fr), st))
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a, b = st.copy(), st.copy()
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        st.d = self.merge(c, a, b).d
        return ite(c, va, vb)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(i, st):
            v = self.ev(e.values[i], st, fr)
            if i == len(e.values) - 1:
                return v
            c = truth(self.val(v, st))
            if (c is FALSE and isand) or (c is TRUE and not isand):
                return v
            s2 = st.copy()
            w = go(i + 1, s2)
            g = c if isand else not_(c)
            st.d = self.merge(g, s2, st).d
            vv = v
            return ite(c, w, vv) if isand else ite(c, vv, w)
        return go(0, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.val(self.ev(e.operand, st, fr), st)
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return apply(lambda t: leaf(dd.lin_scale(t, -1)), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return apply(lambda t: leaf(T("inv", t)) if not dd.is_num(t) else const(~t.args[0]), v)

    def e_BinOp(self, e, st, fr):
        a = self.val(self.ev(e.left, st, fr), st)
        b = self.val(self.ev(e.right, st, fr), st)
        r = self.binop(type(e.op).__name__, a, b)
        if isinstance(e.op, ast.Add) and all(t.op == "list" for t in dd.leaves(r)):
            return self.alloc(r, st)
        return r

    def binop(self, op, a, b):
        return apply(lambda x, y: self.t_binop(op, x, y), a, b)

    def t_binop(self, op, x, y):
        if failed(x) or failed(y):
            return leaf(x if failed(x) else y)
        if dd.is_num(x) and dd.is_num(y):
            import operator as o
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "FloorDiv": o.floordiv, "Mod": o.mod, "LShift": o.lshift,
                 "RShift": o.rshift, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "Div": o.truediv, "Pow": o.pow}.get(op)
            try:
                if abs(x.args[0]) < 2 ** 64 and abs(y.args[0]) < 2 ** 10 or op in ("Add", "Sub", "Mult"):
                    return const(f(x.args[0], y.args[0]))
            except Exception:
                pass
        if op in ("Add", "Sub", "Mult", "Div") and any(a.op in ("o", "obj") and a.args[0] in self.p.class_of and not self.p.find_method(a.args[0], f"__{op.lower()}__")
                                                       and b.op in ("list", "tuple", "c", "cat") for a, b in ((x, y), (y, x))):
            return leaf(T("raise", "TypeError"))
        if op in ("Sub", "Div", "FloorDiv") and _isstr(x) and _isstr(y):
            return leaf(T("raise", "TypeError"))
        if op == "Add":
            if x.op in ("list", "flatmap", "fixl") or y.op in ("list", "flatmap"):
                return leaf(mk_list("list", [T("splice", x), T("splice", y)]))
            if x.op == "tuple" and y.op == "tuple":
                return leaf(T("tuple", *x.args, *y.args))
            if _isstr(x) or _isstr(y):
                return leaf(mk_cat([x, y]))
            return leaf(dd.lin_add(x, y))
        if op == "Sub":
            return leaf(dd.lin_add(x, y, -1))
        if op == "Mult":
            if _isstr(x) or x.op == "list":
                return leaf(T("repeat", x, y))
            return dd.mul_leaf(x, y)
        if op == "Mod" and _isstr(x):
            return leaf(T("percentfmt", x, y))
        if op in ("BitOr", "BitAnd", "BitXor"):
            if x.op == "c" and y.op == "c" and isinstance(x.args[0], (int, bool)) and isinstance(y.args[0], (int, bool)):
                import operator as o
                return const({"BitOr": o.or_, "BitAnd": o.and_, "BitXor": o.xor}[op](x.args[0], y.args[0]))
            p, q = sorted((x, y), key=lambda t: t.id)
            return leaf(T("bin", op, p, q))
        return leaf(T("bin", op, x, y))

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        r = TRUE
        for op, right in zip(e.ops, e.comparators):
            rt = self.ev(right, st, fr)
            r = and_(r, self.compare(type(op).__name__, left, rt, st))
            left = rt
        return r

    def compare(self, op, a, b, st):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            a2, b2 = (self.val(a, st), self.val(b, st))
            if (self.eqmods or self.eqonly) and op in ("Eq", "NotEq"):
                def f(x, y):
                    if x.op == "ite" or x is y:
                        return self.t_eq(x, y)
                    return self.obj_eq(x, y, st)
                r = apply(f, a2, b2)
            else:
                r = self.cmp_eq(a2, b2)
            return not_(r) if op in ("IsNot", "NotEq") else r
        a, b = self.val(a, st), self.val(b, st)
        if op == "Lt":
            return apply(dd.lt_leaf, a, b)
        if op == "Gt":
            return apply(lambda x, y: dd.lt_leaf(y, x), a, b)
        if op == "LtE":
            return apply(dd.le_leaf, a, b)
        if op == "GtE":
            return apply(lambda x, y: dd.le_leaf(y, x), a, b)
        if op in ("In", "NotIn"):
            r = apply(lambda x, y: self.t_in(x, y, st), a, b)
            return not_(r) if op == "NotIn" else r
        raise Unsupported(op)

    def cmp_eq(self, a, b):
        return apply(self.t_eq, a, b)

    def obj_eq(self, x, y, st):
        for u, w in ((x, y), (y, x)):
            c = self.recv_class(u)
            if c and (self.p.class_of.get(c) in self.eqmods or self.p.class_of.get(c) in self.eqonly):
                r = self.p.find_method(c, "__eq__")
                if r:
                    return truth(self.val(self.inline(r[2], r[0], [leaf(u), leaf(w)], {}, st, [], r[1], self._fr), st))
        return self.t_eq(x, y)

    def unhashable(self, c):
        """A class that defines __eq__ without __hash__ has no hash."""
        e, h = self.p.find_method(c, "__eq__"), self.p.find_method(c, "__hash__")
        if not e or not h or h[1] == e[1]:
            return bool(e and not h)
        above = self.p.find_method(e[1], "__hash__")
        return bool(above and above[1] == h[1])

    def t_eq(self, x, y):
        # type(x) == C / id(x) == id(y)
        return dd.eq_leaf(x, y)

    def t_in(self, x, y, st=None):
        if y.op in ("list", "tuple", "set"):
            r = FALSE
            c = self.recv_class(x) if self.eqmods and st is not None else None
            if c and self.p.class_of.get(c) in self.eqmods:
                if y.op == "set" and self.unhashable(c):
                    return atom(T("raise", "TypeError", x))
                if all(self.recv_class(e) for e in y.args):
                    return or_(*[self.obj_eq(x, e, st) for e in y.args])
            for e in y.args:
                if e.op == "splice":
                    r = or_(r, self.t_in(x, e.args[0]))
                else:
                    r = or_(r, dd.eq_leaf(x, e))
            return r
        if y.op == "dict":
            return or_(*[dd.eq_leaf(x, y.args[i]) for i in range(0, len(y.args), 2)])
        if y.op == "mcall" and y.args[0] == "keys":
            return self.t_in(x, y.args[1])
        if y.op == "call" and y.args[0] in ("list", "set", "tuple", "frozenset", "sorted") and len(y.args) == 2:
            return self.t_in(x, y.args[1])
        if y.op == "store":
            return or_(dd.eq_leaf(x, y.args[1]), self.t_in(x, y.args[0]))
        if y.op == "c" and x.op == "c" and isinstance(y.args[0], str) and isinstance(x.args[0], str):
            return TRUE if x.args[0] in y.args[0] else FALSE
        return atom(T("in", x, y))

    def e_Lambda(self, e, st, fr):
        i = next(self.uid)
        self.clos[i] = (e, fr.mod, list(fr.chain), fr.cls)
        return leaf(T("clos", i))

    def e_Starred(self, e, st, fr):
        raise Unsupported("starred")

    def e_Await(self, e, st, fr):
        raise Unsupported("await")

    def e_Yield(self, e, st, fr):
        raise Unsupported("yield value")

    def comp_loop(self, gens, i, st, fr, leaffn):
        """Run nested generators as loops; leaffn(st) is called in the innermost body."""
        g = gens[i]
        it = self.val(self.ev(g.iter, st, fr), st)

        def body(el, s2):
            self.assign(g.target, el, s2, fr)

            def rest(j, s3):
                if j == len(g.ifs):
                    if i + 1 < len(gens):
                        self.comp_loop(gens, i + 1, s3, fr, leaffn)
                    else:
                        leaffn(s3)
                    return
                c = truth(self.val(self.ev(g.ifs[j], s3, fr), s3))
                s4 = s3.copy()
                rest(j + 1, s4)
                s3.d = self.merge(c, s4, s3).d
            rest(0, s2)
        self.for_over(it, st, fr, body, g)

    def comp_list(self, gens, st, fr, eltfn, op="list"):
        sc = next(self.scope)
        fr2 = fr.child(sc)
        acc = T("alloc", next(self.uid))
        st.d[("ct", acc)] = leaf(T("list"))

        def leaffn(s2):
            v = eltfn(s2, fr2)
            self.mutate(s2, leaf(acc), lambda c, x: self.t_append(c, x), [self.val(v, s2)])
        self.comp_loop(gens, 0, st, fr2, leaffn)
        r = st.d[("ct", acc)]
        if op == "set":
            r = apply(lambda t: leaf(T("set", *t.args)) if t.op == "list" and not any(a.op == "splice" for a in t.args) else leaf(T("call", "set", t)), r)
        return r

    def e_ListComp(self, e, st, fr):
        return self.alloc(self.comp_list(e.generators, st, fr, lambda s2, f2: self.ev(e.elt, s2, f2)), st)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp_list(e.generators, st, fr, lambda s2, f2: self.ev(e.elt, s2, f2))

    def e_SetComp(self, e, st, fr):
        return self.alloc(self.comp_list(e.generators, st, fr, lambda s2, f2: self.ev(e.elt, s2, f2), "set"), st)

    def e_DictComp(self, e, st, fr):
        r = self.comp_list(e.generators, st, fr, lambda s2, f2: apply(
            lambda a, b: leaf(T("tuple", a, b)), self.val(self.ev(e.key, s2, f2), s2), self.val(self.ev(e.value, s2, f2), s2)))

        def mk(t):
            if t.op == "list" and not any(a.op == "splice" for a in t.args):
                out = []
                for x in t.args:
                    out += list(x.args)
                return leaf(T("dict", *out))
            return leaf(T("call", "dict", t))
        return self.alloc(apply(mk, r), st)

    def t_append(self, c, x):
        return mk_list("list", [T("splice", c), x])

    def t_extend(self, c, x):
        if _isstr(c):
            return mk_cat([c, x])
        return mk_list("list", [T("splice", c), T("splice", x)])

    # ---------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        f = e.func
        # super().__init__(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.super_call(e, f.attr, st, fr)
        recv = None
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, st, fr)
            args, kw = self.args(e, st, fr)
            return self.per_leaf(base, st, lambda t, s2: self.attr_call(t, f.attr, args, kw, s2, fr, e))
        fn = self.ev(f, st, fr)
        args, kw = self.args(e, st, fr)
        return self.per_leaf(fn, st, lambda t, s2: self.call(t, args, kw, s2, fr, e))

    def args(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(self.ev(a.value, st, fr), st)
                if v.leaf is not None and v.leaf.op in ("list", "tuple") and not any(x.op == "splice" for x in v.leaf.args):
                    args += [leaf(x) for x in v.leaf.args]
                else:
                    args.append(apply(lambda t: leaf(T("splice", t)), v))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.val(self.ev(k.value, st, fr), st)
                known = {t for t in dd.leaves(v) if t.op != "undef"}
                if v.leaf is None and len(known) == 1:
                    v = leaf(known.pop())
                if v.leaf is not None and v.leaf.op == "dict" and all(v.leaf.args[i].op == "c" for i in range(0, len(v.leaf.args), 2)):
                    for i in range(0, len(v.leaf.args), 2):
                        kw[v.leaf.args[i].args[0]] = leaf(v.leaf.args[i + 1])
                else:
                    kw["**"] = apply(lambda t: leaf(T("splice", t)), v)
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return args, kw

    def super_call(self, e, name, st, fr):
        args, kw = self.args(e, st, fr)
        c = fr.cls
        selfn = self.get(st, fr.lookup_key("self", st))
        for b in self.p.cls(c).bases if c and self.p.cls(c) else []:
            n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
            r = self.p.find_method(n, name) if n else None
            if r:
                return self.inline(r[2], r[0], [selfn] + args, kw, st, [], r[1], fr)
        return NONE

    def attr_call(self, t, name, args, kw, st, fr, e):
        # module function / class member
        if t.op == "m":
            if t.args[0] in self.p.mods:
                fn = self.global_(t.args[0], name)
                return self.per_leaf(fn, st, lambda u, s2: self.call(u, args, kw, s2, fr, e))
            return self.opaque(f"{t.args[0]}.{name}", args, kw, st, e)
        if t.op == "g":
            if t.args[1] in self.p.class_of and self.p.class_of[t.args[1]] == t.args[0]:
                r = self.p.find_method(t.args[1], name)
                if r:
                    return self.call(T("g", r[0], f"{r[1]}.{name}"), args, kw, st, fr, e)
            return self.opaque(f"{t.args[0]}.{t.args[1]}.{name}", args, kw, st, e)
        # stored callable attribute
        k = ("at", t, name)
        if k in st.d:
            return self.per_leaf(st.d[k], st, lambda u, s2: self.call(u, args, kw, s2, fr, e))
        return self.method(t, name, args, kw, st, fr, e)

    def recv_class(self, t):
        if t.op == "o":
            return t.args[0]
        if t.op == "obj":
            return t.args[0]
        return self.cls_of_term.get(t)

    def method(self, t, name, args, kw, st, fr, e):
        c = self.recv_class(t) or self.method_cls.get(name)
        hook = getattr(self, "m_hook", None)
        if hook:
            r = hook(self, t, name, args, kw, st, fr, e)
            if r is not None:
                return r
        if c is None and name not in MUTATORS and name not in PURE_METHODS:
            cands = self.p.methods.get(name, [])
            if len(cands) == 1:
                c = cands[0][1]
        if c is not None:
            r = self.p.find_method(c, name)
            if not r and f"{c}.{name}" in self.models:
                # inherited from a class of a library
                return self.models[f"{c}.{name}"](self, [leaf(t)] + args, st)
            if r:
                fq = f"{r[0]}.{r[1]}.{name}"
                if fq in self.models:
                    return self.models[fq](self, [leaf(t)] + args, st)
                static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in r[2].decorator_list)
                a2 = args if static else [leaf(t)] + args
                pol = self.policy(fq, r[2])
                if pol is True and self.stack.count(r[2]) < self.reclimit and len(self.stack) < self.maxdepth and not _is_generator(r[2]):
                    return self.inline(r[2], r[0], a2, kw, st, [], r[1], fr)
                if pol == "pure" or _is_generator(r[2]):
                    return self.pure(fq, [leaf(t)] + args, kw, st)
                self.effect(st, fq, [leaf(t)] + args + [v for _, v in sorted(kw.items())], e)
                return self.pure(fq, [leaf(t)] + args, kw, st)
        if name in MUTATORS and (t.op in ("alloc", "attr", "idx", "v") or ("ct", t) in st.d):
            return self.mut_method(t, name, args, kw, st, e)
        if name == "pack" and t.op == "call" and t.args[0] == "struct.Struct":
            r = _packed(_asnode(t.args[1]), [self.val(a, st) for a in args])
            if r is not None:
                return r
        if name == "bit_length" and t.op == "c" and isinstance(t.args[0], int) and not args:
            return leaf(C(int(t.args[0]).bit_length()))
        if name in ("lower", "upper", "strip", "title", "isdigit") and t.op == "c" and isinstance(t.args[0], str) and not args:
            return const(getattr(t.args[0], name)())
        if t.op == "c" and isinstance(t.args[0], (str, bytes)) and name == ("encode" if isinstance(t.args[0], str) else "decode") and not kw:
            cs = [self.val(a, st) for a in args]
            if all(a.leaf is not None and a.leaf is C("utf-8") for a in cs):
                try:
                    return const(getattr(t.args[0], name)())
                except ValueError:
                    return leaf(T("raise", "ValueError"))
        if t.op == "c" and isinstance(t.args[0], str) and name in STR_FOLD and not kw:
            cs = [self.val(a, st) for a in args]
            if cs and all(a.leaf is not None and a.leaf.op == "c" for a in cs) or not cs and name in ("split", "splitlines", "rstrip", "lstrip"):
                try:
                    r = getattr(t.args[0], name)(*[a.leaf.args[0] for a in cs])
                except (TypeError, ValueError):
                    return leaf(T("raise", "ValueError"))
                if isinstance(r, list):
                    return self.alloc(leaf(T("list", *[C(x) for x in r])), st)
                return leaf(T("tuple", *[C(x) for x in r])) if isinstance(r, tuple) else const(r)
        if name == "replace" and self.fold_replace and not kw and len(args) == 2 and (t.op in ("cat", "call", "v") or t.op == "c" and isinstance(t.args[0], str)):
            a, b = self.val(args[0], st), self.val(args[1], st)
            if a.leaf is not None and a.leaf.op == "c" and a.leaf.args[0] and b.leaf is not None:
                out = []
                for x in (t.args if t.op == "cat" else [t]):
                    if x.op == "c":
                        for i, w in enumerate(x.args[0].split(a.leaf.args[0])):
                            out += ([b.leaf] if i else []) + ([C(w)] if w else [])
                    else:
                        out.append(x)
                return leaf(mk_cat(out) if out else C(""))
        if t.op == "obj" and t.args[0] == "re.Match" and name in ("group", "groups") and not kw:
            cs = [self.val(a, st) for a in args]
            if all(a.leaf is not None and a.leaf.op == "c" for a in cs):
                import re
                m = getattr(re, t.args[2].args[0])(t.args[3].args[0], t.args[4].args[0])
                r = getattr(m, name)(*[a.leaf.args[0] for a in cs])
                return leaf(T("tuple", *[C(x) for x in r])) if isinstance(r, tuple) else const(r)
        if name == "encode" and t.op == "c" and isinstance(t.args[0], str):
            return const(t.args[0].encode())
        if name == "encode" and t.op == "cat":
            return apply(lambda *ps: leaf(mk_cat(ps)), *[leaf(C(q.args[0].encode())) if q.op == "c" else leaf(T("mcall", "encode", q)) for q in t.args])
        if name == "encode":
            return leaf(T("mcall", "encode", t))
        if name == "to_bytes" and args and args[0].leaf is not None and args[0].leaf.op == "c":
            order = args[1] if len(args) > 1 else kw.get("byteorder", const("big"))
            code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(args[0].leaf.args[0])
            if code and order.leaf is not None and order.leaf.op == "c" and not ("signed" in kw and kw["signed"] is not FALSE):
                return leaf(pack_fields(("<" if order.leaf.args[0] == "little" else ">") + code, [t]))
        if name == "format" and t.op == "c":
            r = self.str_format(t.args[0], [self.val(a, st) for a in args], {k: self.val(v, st) for k, v in kw.items()})
            if r is not None:
                return r
        if name == "get" and args:
            b = self.val(leaf(t), st)
            if b.leaf is not None and b.leaf.op == "dict":
                d = args[1] if len(args) > 1 else NONE
                k = self.val(args[0], st)

                def g(kk, dflt):
                    r = leaf(dflt)
                    for i in range(len(b.leaf.args) - 2, -2, -2):
                        r = ite(dd.eq_leaf(kk, b.leaf.args[i]), leaf(b.leaf.args[i + 1]), r)
                    return r
                return apply(g, k, d)
            if len(args) == 1 or args[1] is NONE:
                return self.pure_m(name, t, args[:1], kw, st)
        if name == "index" and len(args) == 1:
            def where(bt, kt):
                its = self.literal_items(bt)
                if its is None:
                    return leaf(T("mcall", "index", bt, kt))
                r = leaf(T("raise", "ValueError"))
                for i in range(len(its) - 1, -1, -1):
                    r = ite(dd.eq_leaf(kt, its[i]), const(i), r)
                return r
            return apply(where, self.val(leaf(t), st), self.val(args[0], st))
        if name == "copy" and not args:
            return self.alloc(self.val(leaf(t), st), st)
        if name == "join" and t.op == "c" and len(args) == 1:
            b = self.val(args[0], st)
            if b.leaf is not None and self.literal_items(b.leaf) is not None:
                its = self.literal_items(b.leaf)
                out = []
                for i, x in enumerate(its):
                    if i:
                        out.append(t)
                    out.append(x)
                return leaf(mk_cat(out)) if out else const("")
        if name in PURE_METHODS or name in self.pure_extra:
            return self.pure_m(name, t, args, kw, st)
        self.effect(st, "." + name, [leaf(t)] + args + [v for _, v in sorted(kw.items())], e)
        return self.pure_m(name, t, args, kw, st)

    def str_format(self, s, args, kw):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is not None:
                    if field == "":
                        v = args[auto]
                        auto += 1
                    elif field.isdigit():
                        v = args[int(field)]
                    else:
                        v = kw[field]
                    if spec:
                        parts.append(apply(lambda t, sp=spec: leaf(T("fmt", t, C(sp))), v))
                    else:
                        parts.append(apply(lambda t, cv=conv: leaf(mk_str("repr" if cv == "r" else "str", t)), v))
        except (IndexError, KeyError, ValueError):
            return None
        return apply(lambda *ts: leaf(mk_cat(ts)), *parts) if parts else const("")

    def mut_method(self, t, name, args, kw, st, e):
        a = [self.val(x, st) if name in ("extend", "update", "sort") else x for x in args]
        base = leaf(t)
        if name == "append":
            self.mutate(st, base, lambda c, x: self.t_append(c, x), a)
            return NONE
        if name == "extend":
            self.mutate(st, base, lambda c, x: self.t_extend(c, x), a)
            return NONE
        if name == "add":
            self.mutate(st, base, lambda c, x: T("setadd", c, x) if not (c.op == "set" and not c.args) and c.op != "set" else c if x in c.args else T("set", *c.args, x), a)
            return NONE
        if name in ("remove", "discard") and len(a) == 1:
            def without(c, x):
                ground = lambda y: y.op in ("o", "c", "enum")
                if c.op == "set" and x in c.args and all(ground(y) for y in c.args):
                    return T("set", *[y for y in c.args if y is not x])
                if c.op == "set" and name == "discard" and ground(x) and all(ground(y) for y in c.args):
                    return c
                return T("mut", name, c, x)
            if all(l.op in ("set", "setadd", "mut") for l in dd.leaves(self.get(st, ("ct", t)))):
                self.mutate(st, base, without, a)
                return NONE
        if name == "clear":
            self.mutate(st, base, lambda c: T("list") if c.op in ("list", "flatmap") else T(c.op) if c.op in ("dict", "set") else T("empty", _kind(c)), [])
            return NONE
        if name == "insert":
            self.mutate(st, base, lambda c, i, x: mk_list("list", [x, T("splice", c)]) if i.op == "c" and i.args[0] == 0 else T("insert", c, i, x), a)
            return NONE
        if name == "pop":
            old = self.get(st, ("ct", t))
            self.mutate(st, base, mk_popped, [self.val(x, st) for x in a])
            return apply(lambda c, *k: self.t_index(c, k[0] if k else C(-1)), old, *[self.val(x, st) for x in a])
        if name == "sort":
            key = kw.get("key")
            kt = self.closure_canon(key, st) if key is not None else C(None)
            rev = self.val(kw["reverse"], st) if "reverse" in kw else FALSE
            now = self.val(base, st)
            its = self.literal_items(now.leaf) if now.leaf is not None and now.leaf.op == "list" else None
            if its is not None and rev in (TRUE, FALSE):
                keys = [self.val(self.call(self.val(key, st).leaf, [leaf(x)], {}, st, self._fr, e), st) if key is not None else leaf(x) for x in its]
                if all(k.leaf is not None and k.leaf.op == "c" for k in keys):
                    try:
                        order = sorted(range(len(its)), key=lambda i: keys[i].leaf.args[0], reverse=rev is TRUE)
                        self.mutate(st, base, lambda c: T("list", *[its[i] for i in order]), [])
                        return NONE
                    except TypeError:
                        pass
            self.mutate(st, base, lambda c, r: T("sorted", c, kt, r), [rev])
            return NONE
        if name == "setdefault":
            self.mutate(st, base, lambda c, k, d: T("setdef", c, k, d), [self.val(a[0], st), a[1] if len(a) > 1 else NONE])
            return self.index(base, a[0], st)
        self.mutate(st, base, lambda c, *xs: T("mut", name, c, *xs), [self.val(x, st) for x in a])
        return NONE

    def closure_canon(self, fn, st):
        """A closure as a term: its body applied to a symbolic argument."""
        if fn is None or fn.leaf is None or fn.leaf.op != "clos":
            return fn.leaf if fn is not None and fn.leaf is not None else T("fn")
        nd, mod, chain, cls = self.clos[fn.leaf.args[0]]
        names = [a.arg for a in nd.args.args]
        s2 = st.copy()
        v = self.val(self.body(nd, mod, {n: leaf(T("lam", i)) for i, n in enumerate(names)}, s2, chain, cls), s2)
        return T("fun", v)

    def pure_m(self, name, t, args, kw, st):
        vs = [self.val(leaf(t), st)] + [self.val(a, st) for a in args] + [self.val(v, st) for _, v in sorted(kw.items())]
        return apply(lambda *ts: leaf(T("mcall", name, *ts)), *vs)

    def worked(self, fq, st):
        """Count the pieces of work done so far: what a clock shows and what a program answers depend on it."""
        if fq.split(".")[-1] in self.work and ("." not in fq[1:] or fq.split(".")[0] in ("subprocess",) or fq.split(".")[0] in self.p.mods):
            st.d["work", "n"] = self.add_leafs(self.get(st, ("work", "n")), 1)
            return True
        return False

    @staticmethod
    def add_leafs(n, k):
        return apply(lambda t: const(t.args[0] + k), n)

    def pure(self, fq, args, kw, st):
        if fq.startswith("ref_"):
            fq = fq[4:]
        if self.work and (fq.split(".")[-1] in self.clocks or self.worked(fq, st)):
            args = list(args) + [self.get(st, ("work", "n"))]
        vs = [self.val(a, st) for a in args] + [self.val(v, st) for _, v in sorted(kw.items())]
        tag = tuple(sorted(kw))
        name = fq if not tag else fq + "(" + ",".join(tag) + ")"
        return apply(lambda *ts: leaf(T("call", name, *ts)), *vs)

    def opaque(self, fq, args, kw, st, e):
        if fq in self.models:
            return self.models[fq](self, args, st)
        if fq == "struct.pack" and args:
            r = _packed(self.val(args[0], st), [self.val(a, st) for a in args[1:]])
            if r is not None:
                return r
        if fq == "struct.calcsize" and len(args) == 1 and args[0].leaf is not None and args[0].leaf.op == "c":
            import struct
            return const(struct.calcsize(args[0].leaf.args[0]))
        if fq in ("typing.cast",):
            return args[1]
        if fq in STD_FOLD and not kw and args and all(a.leaf is not None and a.leaf.op == "c" and isinstance(a.leaf.args[0], str) for a in args):
            import shlex
            vals = [a.leaf.args[0] for a in args]
            try:
                r = getattr(os.path, fq[8:])(*vals) if fq.startswith("os.path.") else getattr(shlex, fq[6:])(*vals)
            except ValueError:
                return leaf(T("raise", "ValueError"))
            return self.alloc(leaf(T("list", *[C(x) for x in r])), st) if isinstance(r, list) else leaf(T("tuple", *[C(x) for x in r])) if isinstance(r, tuple) else const(r)
        if fq == "pathlib.Path" and len(args) == 1 and args[0].leaf is not None and args[0].leaf.op == "call" and args[0].leaf.args[0] == "pathlib.Path":
            return args[0]
        if fq in ("re.match", "re.fullmatch", "re.search") and len(args) == 2 and not kw and all(a.leaf is not None and a.leaf.op == "c" for a in args):
            import re
            m = getattr(re, fq[3:])(args[0].leaf.args[0], args[1].leaf.args[0])
            return dd.NONE if m is None else leaf(T("obj", "re.Match", C(m.group()), C(fq[3:]), args[0].leaf, args[1].leaf))
        if fq.startswith("math.") and args and not kw and all(a.leaf is not None and a.leaf.op == "c" for a in args):
            import math
            f = getattr(math, fq[5:], None)
            try:
                r = f(*[a.leaf.args[0] for a in args]) if callable(f) else None
            except (ValueError, TypeError, OverflowError, ZeroDivisionError):
                r = None
            if isinstance(r, (int, float)):
                return const(r)
        if fq in self.pure_extra or fq.split(".")[0] in ("re", "math", "pathlib", "os", "textwrap", "struct", "enum", "ctypes") \
                and fq not in ("os.remove", "os.unlink", "os.makedirs", "os.system", "os.chdir", "os.rename", "os.replace", "os.mkdir", "os.rmdir", "os.kill", "os.killpg", "os._exit"):
            return self.pure(fq, args, kw, st)
        self.effect(st, fq, args + [v for _, v in sorted(kw.items())], e)
        return self.pure(fq, args, kw, st)

    def call(self, t, args, kw, st, fr, e):
        if t.op == "clos":
            nd, mod, chain, cls = self.clos[t.args[0]]
            if self.stack.count(nd) >= self.reclimit or len(self.stack) >= self.maxdepth:
                self.effect(st, "rec:" + getattr(nd, "name", "lambda"), args, e)
                return self.pure("rec:" + getattr(nd, "name", "lambda"), args, kw, st)
            return self.inline(nd, mod, args, kw, st, chain, cls, fr)
        if t.op == "g":
            mod, name = t.args
            if mod == "builtins":
                return self.builtin(name, args, kw, st, fr, e)
            if mod == "typing" and name == "cast":
                return args[1]
            fq = f"{mod}.{name}"
            if fq in self.logfx:
                self.effect(st, self.logfx[fq], [], e)
                return NONE
            if fq in self.ignored_calls:
                return NONE
            if mod in self.p.mods and name in self.p.mods[mod].classes:
                if fq in self.models:
                    return self.models[fq](self, args, st)
                return self.construct(name, args, kw, st, fr, e)
            fd = self.p.func(mod, name) if mod in self.p.mods else None
            if fq.startswith("ref_"):
                fq = fq[4:]
            if fd is not None and fq in self.models:
                return self.models[fq](self, args, st)
            if fd is not None:
                self.calls.append((fq, args, kw, (mod, e.lineno)))
                pol = self.policy(fq, fd)
                cname = name.split(".")[0] if "." in name else None
                if pol is True and self.stack.count(fd) < self.reclimit and len(self.stack) < self.maxdepth and not _is_generator(fd):
                    return self.inline(fd, mod, args, kw, st, [], cname, fr)
                pos = self.positional(fd, args, kw, st)
                if pol != "pure" and not _is_generator(fd):
                    self.effect(st, fq, pos, e)
                return self.pure(fq, pos, {}, st)
            return self.opaque(fq, args, kw, st, e)
        if t.op == "typeof":
            return self.pure("new", [leaf(t)] + args, kw, st)
        if t.op == "bm":
            return self.method(t.args[0], t.args[1], args, kw, st, fr, e)
        if t.op == "enum" or t.op == "c":
            return leaf(T("raise", "notcallable"))
        if t.op == "attr" and t.args[0].op == "g":
            return self.pure(dd.show(t), args, kw, st)
        if t.op == "v" and isinstance(t.args[0], str) and t.args[0].count(".") == 1:
            mn, nm = t.args[0].split(".")
            d = self.p.mods[mn].assigns.get(nm) if mn in self.p.mods else None
            # a distinct type is its base type at run time
            if isinstance(d, ast.Call) and ast.unparse(d.func) in ("NewType", "typing.NewType") and len(args) == 1 and not kw:
                return args[0]
        self.effect(st, "indirect", [leaf(t)] + args, e)
        return self.pure("indirect", [leaf(t)] + args, kw, st)

    def positional(self, fd, args, kw, st):
        """Arguments in parameter order, with defaults filled in where they are literals."""
        names = [a.arg for a in fd.args.posonlyargs + fd.args.args]
        out = list(args)
        defaults = fd.args.defaults
        for i in range(len(args), len(names)):
            n = names[i]
            if n in kw:
                out.append(kw[n])
            else:
                j = i - (len(names) - len(defaults))
                if 0 <= j < len(defaults):
                    try:
                        out.append(const(ast.literal_eval(defaults[j])))
                        continue
                    except Exception:
                        pass
                out.append(leaf(T("default", n)))
        for k, v in sorted(kw.items()):
            if k not in names:
                out.append(v)
        return out

    def construct(self, cname, args, kw, st, fr, e):
        if self.p.is_enum(cname) and args:
            v = self.val(args[0], st)

            def f(t):
                if t.op == "c":
                    for k, w in self.p.enum_members(cname).items():
                        try:
                            if ast.literal_eval(w) == t.args[0]:
                                return leaf(T("enum", cname, k))
                        except Exception:
                            pass
                return leaf(T("call", "enum:" + cname, t))
            return apply(f, v)
        hook = getattr(self, "c_hook", None)
        if hook:
            r = hook(self, cname, args, kw, st, fr, e)
            if r is not None:
                return r
        params = ctor_params(self.p, cname)
        if params is None:
            vs = [self.val(a, st) for a in args] + [self.val(v, st) for _, v in sorted(kw.items())]
        else:
            r = self.p.find_method(cname, "__init__")
            names = params
            vs = []
            dfl = {}
            if r:
                al = r[2].args
                allp = [a.arg for a in al.posonlyargs + al.args][1:]
                for n, d in zip(allp[len(allp) - len(al.defaults):], al.defaults):
                    dfl[n] = d
            for i, n in enumerate(names):
                if i < len(args):
                    vs.append(self.val(args[i], st))
                elif n in kw:
                    vs.append(self.val(kw[n], st))
                elif n in dfl:
                    s2 = St()
                    f2 = Frame(self, r[0], [next(self.scope)], None, None)
                    vs.append(self.val(self.ev(dfl[n], s2, f2), s2))
                    self._fr = fr
                else:
                    vs.append(leaf(T("missing", n)))
        return apply(lambda *ts: leaf(T("obj", cname, *ts)), *vs) if vs else leaf(T("obj", cname))

    def inline(self, fd, mod, args, kw, st, chain, cls, fr):
        a = fd.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bind = {}
        rest = args[len(names):]
        for i, n in enumerate(names):
            if i < len(args):
                bind[n] = args[i]
        for k, v in kw.items():
            if k in names or any(x.arg == k for x in a.kwonlyargs):
                bind[k] = v
        f2 = Frame(self, mod, [next(self.scope)] + chain, cls, None)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in bind:
                bind[n] = self.ev(d, st, f2)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bind and d is not None:
                bind[x.arg] = self.ev(d, st, f2)
        for n in names:
            if n not in bind:
                bind[n] = leaf(T("missing", n))
        if a.vararg:
            bind[a.vararg.arg] = apply(lambda *ts: leaf(T("tuple", *ts)), *rest) if rest else leaf(T("tuple"))
        if a.kwarg:
            ks = [k for k in kw if k not in bind]
            flat = []
            for k in ks:
                flat += [const(k), kw[k]]
            bind[a.kwarg.arg] = apply(lambda *ts: leaf(T("dict", *ts)), *flat) if flat else leaf(T("dict"))
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            c = self.ann_class(x.annotation)
            v = bind.get(x.arg)
            if c and v is not None and v.leaf is not None and v.leaf.op in ("idx", "attr", "v", "call", "mcall"):
                self.cls_of_term.setdefault(v.leaf, c)
        rv = self.body(fd, mod, bind, st, chain, cls)
        self._fr = fr
        return apply(lambda t: NONE if t.op == "raise" else leaf(t), rv)

    def isinst(self, x, c):
        def f(xt, ct):
            if ct.op in ("tuple", "list"):
                return or_(*[f(xt, a) for a in ct.args])
            name = ct.args[-1] if ct.op == "g" else None
            if name is None:
                return atom(T("b", "isinstance", xt, ct))
            if xt.op in ("obj", "o"):
                return TRUE if name in self.p.supers(xt.args[0]) else FALSE
            if xt.op == "c":
                py = {"bool": bool, "int": int, "str": str, "float": float}.get(name)
                if py:
                    return TRUE if isinstance(xt.args[0], py) else FALSE
                return FALSE
            if xt.op in ("list", "tuple", "set", "dict"):
                return TRUE if name == xt.op else FALSE
            if xt.op == "enum":
                return TRUE if name in self.p.supers(xt.args[0]) else FALSE
            return atom(T("cls", xt, name))
        return apply(f, x, c)

    def builtin(self, name, args, kw, st, fr, e):
        vs = [self.val(a, st) for a in args]
        if name == "isinstance":
            return self.isinst(vs[0], vs[1])
        if name == "cast":
            return args[1]
        if name in ("max", "min") and len(vs) >= 2 and not kw:
            r = vs[0]
            for v in vs[1:]:
                le = apply(dd.le_leaf, r, v)
                r = ite(le, v, r) if name == "max" else ite(le, r, v)
            return r
        if name == "len":
            return apply(self.t_len, vs[0])
        if name in ("list", "tuple", "set", "dict") and not vs and not kw:
            return self.alloc(leaf(T(name)), st)
        if name in ("list", "tuple") and len(vs) == 1:
            def aslist(t):
                if t.op in ("list", "flatmap", "tuple"):
                    return leaf(t)
                its = self.literal_items(t) if t.op != "set" else None
                return leaf(T(name, *its) if its is not None else T("call", "list", t))
            top = self.shallow(args[0], st)
            x = top if all(t.op in ("list", "tuple") and self.literal_items(t) is not None for t in dd.leaves(top)) else vs[0]
            return self.alloc(apply(aslist, x), st) if name == "list" else apply(aslist, x)
        if name == "dict" and len(vs) == 1 and not kw and all(t.op == "dict" for t in dd.leaves(vs[0])):
            return self.alloc(vs[0], st)
        if name == "set" and len(vs) == 1:
            def asset(t):
                if t.op in ("list", "tuple") and not any(a.op == "splice" for a in t.args):
                    return leaf(T("set", *t.args))
                its = self.literal_items(t) if t.op in ("mcall", "dict") or t.op == "call" and t.args[0] == "range" else None
                return leaf(T("set", *dict.fromkeys(its)) if its is not None else T("call", "set", t))
            return self.alloc(apply(asset, vs[0]), st)
        if name in ("any", "all") and len(vs) == 1:
            return apply(lambda t: self.t_any(t) if name == "any" else self.t_all(t), vs[0])
        if name in ("max", "min", "sum") and len(vs) == 1 and not kw:
            return apply(lambda t: self.t_fold(name, t), vs[0])
        if name == "bytes" and not vs:
            return const(b"")
        if name == "bool":
            return truth(vs[0]) if vs else FALSE
        if name in ("str", "repr"):
            if vs and self.texts:
                known = [t for t in dd.leaves(vs[0])]
                if all(t in self.texts for t in known):
                    return apply(lambda t: const(self.texts[t]), vs[0])
            return self.say(name, vs[0], st, fr, e) if vs else const("")
        if name == "print":
            if self.prints and "file" not in kw and "**" not in kw and not any(v.leaf is not None and v.leaf.op == "splice" for v in vs):
                end = self.val(kw["end"], st) if "end" in kw else const("\n")
                sep = self.val(kw["sep"], st) if "sep" in kw else const(" ")
                texts = []
                for i, v in enumerate(vs):
                    texts += ([sep] if i else []) + [self.say("str", v, st, fr, e)]
                self.effect(st, "print", [apply(lambda *ts: leaf(mk_cat(list(ts))), *texts, end)], e)
            return NONE
        if name == "id":
            return vs[0]
        if name == "type" and len(vs) == 1:
            def tof(t):
                if t.op in ("obj", "o") and t.args[0] in self.p.class_of:
                    return leaf(T("g", self.p.class_of[t.args[0]], t.args[0]))
                if t.op == "c":
                    return leaf(T("g", "builtins", type(t.args[0]).__name__))
                if t.op in ("list", "dict", "tuple", "set"):
                    return leaf(T("g", "builtins", t.op))
                return leaf(T("typeof", t))
            return apply(tof, vs[0])
        if name == "int" and len(vs) == 1:
            def toint(t):
                if failed(t):
                    return leaf(t)
                if t.op == "c" and isinstance(t.args[0], str):
                    try:
                        return const(int(t.args[0]))
                    except ValueError:
                        return leaf(T("raise", "ValueError"))
                return const(int(t.args[0])) if t.op == "c" and isinstance(t.args[0], (int, float)) else leaf(T("call", "int", t))
            return apply(toint, vs[0])
        if name == "abs" and len(vs) == 1:
            return apply(lambda t: const(abs(t.args[0])) if dd.is_num(t) else leaf(T("call", "abs", t)), vs[0])
        if name == "getattr" and len(vs) >= 2 and vs[1].leaf is not None and vs[1].leaf.op == "c":
            return self.getattr(args[0], vs[1].leaf.args[0], st, fr)
        if name == "setattr" and len(vs) == 3 and vs[1].leaf is not None and vs[1].leaf.op == "c":
            self.setattr(args[0], vs[1].leaf.args[0], args[2], st)
            return NONE
        if name == "sorted" and vs:
            its = self.literal_items(vs[0].leaf) if vs[0].leaf is not None else None
            rv = self.val(kw["reverse"], st) if "reverse" in kw else FALSE
            if its is not None and rv in (TRUE, FALSE):
                keys = [self.val(self.call(self.val(kw["key"], st).leaf, [leaf(x)], {}, st, fr, e), st) if "key" in kw else leaf(x) for x in its]
                if all(k.leaf is not None and k.leaf.op == "c" for k in keys):
                    try:
                        order = sorted(range(len(its)), key=lambda i: keys[i].leaf.args[0], reverse=rv is TRUE)
                        return self.alloc(leaf(T("list", *[its[i] for i in order])), st)
                    except TypeError:
                        pass
            kt = self.closure_canon(kw.get("key"), st) if "key" in kw else C(None)
            rev = self.val(kw["reverse"], st) if "reverse" in kw else FALSE
            return apply(lambda t, r: leaf(T("sorted", t, kt, r)), vs[0], rev)
        if name == "next" and len(vs) >= 1:
            d = vs[1] if len(vs) > 1 else leaf(T("raise", "StopIteration"))
            return apply(lambda t, dflt: self.t_next(t, dflt), vs[0], d)
        if name in ("map", "filter") and len(args) == 2:
            acc = T("alloc", next(self.uid))
            st.d[("ct", acc)] = leaf(T("list"))

            def body(el, s2):
                r = self.per_leaf(args[0], s2, lambda u, s3: self.call(u, [el], {}, s3, fr, e))
                if name == "map":
                    self.mutate(s2, leaf(acc), lambda c, x: self.t_append(c, x), [self.val(r, s2)])
                else:
                    s3 = s2.copy()
                    self.mutate(s3, leaf(acc), lambda c, x: self.t_append(c, x), [self.val(el, s2)])
                    s2.d = self.merge(truth(r), s3, s2).d
            self.for_over(vs[1], st, fr, body, e)
            return st.d[("ct", acc)]
        if name in ("Exception", "ValueError", "KeyError", "RuntimeError", "NotImplementedError", "AttributeError"):
            return leaf(T("exc", name))
        if name in PURE_FUNCS:
            for v in vs:
                if v.leaf is not None and failed(v.leaf):
                    return v
            return self.pure(name, args, kw, st)
        return self.opaque("builtins." + name, args, kw, st, e)

    def t_len(self, t):
        if t.op in ("list", "tuple", "set"):
            sp = [a for a in t.args if a.op == "splice"]
            if t.op == "set" and len(t.args) > 1:
                if all(a.op == "c" for a in t.args):
                    return const(len({a.args[0] for a in t.args}))
                if all(a.op == "o" for a in t.args):
                    return const(len(set(t.args)))
                return leaf(T("len", t))
            k = C(len(t.args) - len(sp))
            for a in sp:
                r = self.t_len(a.args[0])
                if r.leaf is None:
                    return leaf(T("len", t))
                k = dd.lin_add(k, r.leaf)
            return leaf(k)
        if t.op == "dict":
            return const(len(t.args) // 2)
        if t.op == "c" and isinstance(t.args[0], (str, bytes)):
            return const(len(t.args[0]))
        if t.op == "pk":
            return const(t.args[1])
        if t.op == "cat":
            k = C(0)
            for a in t.args:
                r = self.t_len(a)
                if r.leaf is None:
                    return leaf(T("len", t))
                k = dd.lin_add(k, r.leaf)
            return leaf(k)
        if t.op == "flatmap":
            b = t.args[2]
            if b.leaf is not None and b.leaf.op == "list" and len(b.leaf.args) == 1 and b.leaf.args[0].op != "splice":
                return leaf(t.args[1])
        if t.op == "call" and t.args[0] in ("range", "enumerate", "list", "tuple", "zip"):
            return leaf(self.count(t))
        return leaf(T("len", t))

    def t_any(self, t):
        its = self.literal_items(t)
        if its is not None:
            return or_(*[dd.truth_leaf(x) for x in its])
        if t.op == "list":
            return or_(*[self.t_any(x.args[0]) if x.op == "splice" else dd.truth_leaf(x) for x in t.args])
        if t.op == "flatmap":
            h, cnt, body = t.args
            # some produced element is true

            def g(l):
                return self.t_any(l) if l.op == "list" else FALSE
            return mk_any(h, cnt, apply(g, body))
        return atom(T("any", T("seqany", t)))

    def t_all(self, t):
        its = self.literal_items(t)
        if its is not None:
            return and_(*[dd.truth_leaf(x) for x in its])
        if t.op == "list":
            return and_(*[self.t_all(x.args[0]) if x.op == "splice" else dd.truth_leaf(x) for x in t.args])
        if t.op == "flatmap":
            h, cnt, body = t.args

            def g(l):
                return self.t_all(l) if l.op == "list" else TRUE
            return not_(mk_any(h, cnt, not_(apply(g, body))))
        return not_(atom(T("any", T("seqnotall", t))))

    def t_next(self, t, d):
        if t.op == "list" and t.args and t.args[0].op != "splice":
            return leaf(t.args[0])
        if t.op == "list" and not t.args:
            return leaf(d)
        if t.op == "flatmap":
            h, cnt, body = t.args
            g = apply(lambda l: TRUE if l.op == "list" and l.args else FALSE, body)
            v = apply(lambda l: leaf(l.args[0]) if l.op == "list" and l.args else NONE, body)
            return ite(mk_any(h, cnt, g), leaf(T("first", h, cnt, g, ite(g, v, NONE))), leaf(d))
        return leaf(T("call", "next", t, d))

    def t_fold(self, name, t):
        its = self.literal_items(t)
        if its is not None and its:
            if name == "sum":
                r = const(0)
                for x in its:
                    r = apply(lambda a, b: leaf(dd.lin_add(a, b)), r, leaf(x))
                return r
            r = leaf(its[0])
            for x in its[1:]:
                le = apply(dd.le_leaf, r, leaf(x))
                r = ite(le, leaf(x), r) if name == "max" else ite(le, r, leaf(x))
            return r
        return leaf(T("call", name, t))


# ------------------------------------------------------------------ loops: closing terms
class LoopInfo:
    def __init__(self, seq, cnt, iv, upd, cars, exit_, ret, rv, node, mod, end):
        self.seq, self.cnt, self.iv, self.upd, self.cars = seq, cnt, iv, upd, cars
        self.exit, self.ret, self.rv, self.node, self.mod, self.end = exit_, ret, rv, node, mod, end


BINDERS = {"flatmap", "any", "first", "fix"}


def height(x, memo=None):
    """Largest binder number inside a term or node."""
    if memo is None:
        memo = {}
    if x in memo:
        return memo[x]
    memo[x] = 0
    if isinstance(x, Term):
        h = 0
        if x.op in BINDERS and isinstance(x.args[0], int):
            h = x.args[0]
        for a in x.args:
            if isinstance(a, (Term, Node)):
                h = max(h, height(a, memo))
    elif x.leaf is not None:
        h = height(x.leaf, memo)
    else:
        h = max(height(x.atom, memo), height(x.hi, memo), height(x.lo, memo))
    memo[x] = h
    return h


def mk_any(h, cnt, g):
    if g is FALSE:
        return FALSE
    if g is TRUE:
        return not_(dd.le0(cnt))
    return atom(T("any", h, cnt, g))


class LoopSys:
    def __init__(self, ip, lid, iv, M, upd, cond, cnt, exit_, st):
        self.ip, self.lid, self.iv, self.M, self.upd = ip, lid, iv, M, upd
        self.cond, self.cnt, self.exit, self.st = cond, cnt, exit_, st
        self.keyof = {v: k for k, v in M.items()}
        self._cars = {}

    def cars_in(self, x):
        if x in self._cars:
            return self._cars[x]
        out, seen, work = [], set(), [x]
        while work:
            y = work.pop()
            if y in seen:
                continue
            seen.add(y)
            if isinstance(y, Term):
                if y.op == "tmpcar" and y.args[0] == self.lid:
                    if y.args[1] not in out:
                        out.append(y.args[1])
                for a in reversed(y.args):
                    if isinstance(a, (Term, Node)):
                        work.append(a)
            elif y.leaf is not None:
                work.append(y.leaf)
            else:
                work += [y.lo, y.hi, y.atom]
        self._cars[x] = out
        return out

    def car(self, k):
        return T("tmpcar", self.lid, self.M[k])

    def close(self, nodes):
        """Rename the loop's own symbols by binder height; returns (h, nodes)."""
        h = max([height(n) for n in nodes] + [0]) + 1
        iv = T("ivar", h)
        memo = {}
        return h, [dd.subst(n, lambda t: leaf(iv) if t is self.iv else None, memo) for n in nodes]

    def has_iv(self, n):
        return dd.contains(n, lambda t: t is self.iv)

    def flag(self, g):
        """Did g hold in some iteration?"""
        if self.cnt is not None and not self.cars_in(g):
            h, (g2,) = self.close([g])
            return mk_any(h, self.cnt, g2)
        h, sysn = self.system([g])
        return atom(T("any", h, *sysn))

    def first(self, g, v):
        """Value of v in the first iteration in which g holds."""
        v = ite(g, v, NONE)
        if not self.has_iv(v) and not self.cars_in(v):
            ls = [l for l in dd.leaves(v)]
            w = dd.restrict(v, {}) if False else v
            # value does not depend on the iteration
            vals = set(l for c, l in dd.cubes(g) if l is TRUE.leaf)
            nz = set()
            def collect(a, b):
                if a is TRUE.leaf:
                    nz.add(b)
                return NONE
            apply(collect, g, v)
            if len(nz) == 1:
                return leaf(nz.pop())
        nz = set()

        def collect(a, b):
            if a is TRUE.leaf:
                nz.add(b)
            return NONE
        apply(collect, g, v)
        if len(nz) == 1:
            t = next(iter(nz))
            if not dd.contains(t, lambda x: x is self.iv or (x.op == "tmpcar" and x.args[0] == self.lid)):
                return leaf(t)
        if self.cnt is not None and not self.cars_in(g) and not self.cars_in(v):
            h, (g2, v2) = self.close([g, v])
            return leaf(T("first", h, self.cnt, g2, v2))
        h, sysn = self.system([g, v])
        return leaf(T("first", h, *sysn))

    def final(self, k):
        upd, car = self.upd[k], self.car(k)
        init = self.ip.val(self.ip.get(self.st, k), self.st)
        others = [c for c in self.cars_in(upd) if c != self.M[k]]
        # loop-invariant assignment under a condition
        if self.cnt is not None and not others:
            g = apply(lambda t: FALSE if t is car else TRUE, upd)
            if not self.cars_in(g):
                nz = set()
                apply(lambda a, b: (nz.add(b), NONE)[1] if a is TRUE.leaf else NONE, g, upd)
                if not any(dd.contains(t, lambda x: x is self.iv or x is car) for t in nz):
                    if len(nz) == 1 and (self.exit is FALSE or self.exit is g or not self.cars_in(self.exit)):
                        # with an exit condition, g must be (implied by) the exit's own iteration
                        if self.exit is FALSE or self.exit is g:
                            return ite(self.flag(g), leaf(next(iter(nz))), init)
            # list accumulation
            if self.exit is FALSE:
                fm = self.flatmap(upd, car)
                if fm is not None:
                    return apply(lambda i: leaf(mk_list("list", [T("splice", i), T("splice", fm)])), init)
        h, sysn = self.system([leaf(car)])
        return leaf(T("fix", h, *sysn))

    def flatmap(self, upd, car):
        ok = [True]

        def f(t):
            if t is car:
                return leaf(T("list"))
            if t.op == "list" and t.args and t.args[0].op == "splice" and t.args[0].args[0] is car \
                    and not any(dd.contains(a, lambda x: x is car) for a in t.args[1:]):
                return leaf(mk_list("list", t.args[1:]))
            ok[0] = False
            return leaf(t)
        body = apply(f, upd)
        if not ok[0] or self.cars_in(body):
            return None
        h, (b,) = self.close([body])
        return T("flatmap", h, self.cnt, b)

    def system(self, outs):
        """Canonical recursive system for the given output nodes: (h, flat tuple of args)."""
        order_, work = [], []
        for o in outs + ([self.cond] if self.cond is not None else []) + ([self.exit] if self.exit is not FALSE else []):
            for c in self.cars_in(o):
                if c not in order_:
                    order_.append(c)
        i = 0
        while i < len(order_):
            for c in self.cars_in(self.upd[self.keyof[order_[i]]]):
                if c not in order_:
                    order_.append(c)
            i += 1
        upds = [self.upd[self.keyof[c]] for c in order_]
        inits = [self.ip.val(self.ip.get(self.st, self.keyof[c]), self.st) for c in order_]
        nodes = outs + [self.cond if self.cond is not None else TRUE, self.exit] + upds
        h = max([height(n) for n in nodes] + [0]) + 1
        iv = T("ivar", h)
        ren = {T("tmpcar", self.lid, c): leaf(T("car", h, j)) for j, c in enumerate(order_)}
        ren[self.iv] = leaf(iv)
        memo = {}
        nodes = [dd.subst(n, lambda t: ren.get(t), memo) for n in nodes]
        return h, tuple([self.cnt if self.cnt is not None else C(None), len(outs)] + nodes + inits)


class Frame:
    def __init__(self, ip, mod, chain, cls, fd):
        self.ip, self.mod, self.chain, self.cls, self.fd = ip, mod, chain, cls, fd
        self.nonlocals = set()
        self.globals = set()
        self.exc_count = {}

    def child(self, sc):
        f = Frame(self.ip, self.mod, [sc] + self.chain, self.cls, self.fd)
        f.exc_count = self.exc_count
        f.globals = set(self.globals)
        return f

    def lookup_key(self, name, st):
        for sc in self.chain:
            k = ("l", sc, name)
            if k in st.d:
                return k
        return None

    def assign_key(self, name):
        if name in self.globals:
            return ("at", T("m", self.mod), name)
        if name in self.nonlocals and len(self.chain) > 1:
            return ("l", self.chain[1], name)
        return ("l", self.chain[0], name)

    def read_outside(self, name, node):
        if self.fd is None:
            return True
        inside = set()
        for n in ast.walk(node):
            inside.add(id(n))
        body = self.fd.body if isinstance(self.fd.body, list) else [self.fd.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                    return True
        return False


# ------------------------------------------------------------------ helpers
def _asnode(x):
    return x if isinstance(x, Node) else leaf(x)


def _load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
    for n in ast.walk(t2):
        ast.copy_location(n, t)
    return t2


def _isstr(t):
    return (t.op == "c" and isinstance(t.args[0], (str, bytes))) or t.op in ("cat", "fmt", "pk") or (t.op == "v" and str(t.args[0]).startswith("text ")) or \
        (t.op == "call" and t.args[0] in ("str", "repr")) or (t.op == "mcall" and t.args[0] == "encode")


def pack_fields(fmt, vals):
    """struct.pack(fmt, *vals) as the concatenation of one term per field; None if the format is not understood."""
    import re
    import struct
    if not isinstance(fmt, str):
        return None
    order = fmt[0] if fmt[:1] in "<>!=@" and fmt else "@"
    body = fmt[1:] if fmt[:1] in ("<", ">", "!", "=", "@") else fmt
    out, i = [], 0
    for n, code in re.findall(r"(\d*)([a-zA-Z?])", body):
        if code in "sp":
            reps = 1
            full = (n or "1") + code
        else:
            reps, full = int(n or 1), code
        if code == "x":
            out.append(C(b"\0" * reps))
            continue
        for _ in range(reps):
            if i >= len(vals):
                return None
            v = vals[i]
            i += 1
            width = struct.calcsize("<" + full)
            if v.op == "c":
                try:
                    out.append(C(struct.pack(("<" if order == "@" else order) + full, v.args[0])))
                    continue
                except (struct.error, TypeError):
                    pass
            out.append(T("pk", ("" if width == 1 else "<" if order == "@" else order) + full, width, v))
    return mk_cat(out) if i == len(vals) else None


def _packed(fmt, vals):
    probe = [T("v", str(i)) for i in range(len(vals))]
    if any(f.op != "c" or pack_fields(f.args[0], probe) is None for f in dd.leaves(fmt)):
        return None
    return apply(lambda f, *ts: leaf(pack_fields(f.args[0], ts)), fmt, *vals)


def _kind(c):
    while c.op in ("store", "del", "setadd", "append", "mut", "popped"):
        c = c.args[0] if isinstance(c.args[0], Term) else c.args[1]
    return c


def mk_str(conv, t):
    if t.op == "c" and conv == "str":
        return C(str(t.args[0]))
    if t.op == "c" and conv == "repr":
        return C(repr(t.args[0]))
    if conv == "str" and _isstr(t):
        return t
    if conv == "str" and const_path(t) is not None:
        return C(str(const_path(t)))
    return T("call", conv, t)


def mk_cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args
        else:
            ps = [p]
        for q in ps:
            if q.op == "c" and isinstance(q.args[0], (str, bytes)):
                if not q.args[0]:
                    continue
                if out and out[-1].op == "c" and type(out[-1].args[0]) is type(q.args[0]):
                    out[-1] = C(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return C(b"") if any(q.op == "c" and isinstance(q.args[0], bytes) for q in parts) else C("")
    if len(out) == 1 and _isstr(out[0]):
        return out[0]
    return T("cat", *out)


def decided(k, ks):
    """Index of the key k among ks, -1 when it is none of them, None when that cannot be told."""
    for i, x in enumerate(ks):
        e = dd.eq_leaf(k, x)
        if e is TRUE:
            return i
        if e is not FALSE:
            return None
    return -1


def mk_store(c, k, v):
    if c.op == "dict" or c.op == "empty" and c.args == ("dict",):
        a = list(c.args) if c.op == "dict" else []
        i = decided(k, a[::2])
        if i is not None:
            if i < 0:
                return T("dict", *a, k, v)
            a[2 * i + 1] = v
            return T("dict", *a)
    if c.op == "list" and k.op == "c" and isinstance(k.args[0], int) and not any(x.op == "splice" for x in c.args) and -len(c.args) <= k.args[0] < len(c.args):
        a = list(c.args)
        a[k.args[0]] = v
        return T("list", *a)
    return T("store", c, k, v)


def mk_popped(c, *k):
    if c.op == "dict" and k:
        i = decided(k[0], c.args[::2])
        if i is not None and i >= 0:
            return T("dict", *c.args[:2 * i], *c.args[2 * i + 2:])
        if i == -1:
            return c
    if c.op == "list" and c.args and not any(x.op == "splice" for x in c.args):
        j = k[0].args[0] if k and k[0].op == "c" else -1 if not k else None
        if isinstance(j, int) and -len(c.args) <= j < len(c.args):
            a = list(c.args)
            a.pop(j)
            return T("list", *a)
    return T("popped", c, *k)


def mk_list(op, ts):
    out = []
    for t in ts:
        if t.op == "splice" and t.args[0].op in ("list", "tuple"):
            out += t.args[0].args
        elif t.op == "splice" and t.args[0].op == "set" and len(t.args[0].args) <= 1:
            out += t.args[0].args
        else:
            out.append(t)
    if op == "list" and len(out) == 1 and out[0].op == "splice" and out[0].args[0].op in ("flatmap", "fix"):
        return out[0].args[0]
    return T(op, *out)


dd.REBUILD["cat"] = lambda a: leaf(mk_cat(a))
dd.REBUILD["list"] = lambda a: leaf(mk_list("list", a))
dd.REBUILD["any"] = lambda a: (mk_any(*a) if len(a) == 3 else atom(T("any", *a)))


def _literalish(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call,)):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm not in ("set", "frozenset", "dict", "list", "tuple", "range", "float", "int"):
                return False
        if isinstance(n, (ast.Lambda, ast.Await, ast.Yield)):
            return False
    return True


_gen_cache = {}


def _is_generator(fd):
    r = _gen_cache.get(id(fd))
    if r is None:
        r = False
        work = list(fd.body) if isinstance(fd.body, list) else []
        while work:
            n = work.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            work += list(ast.iter_child_nodes(n))
        _gen_cache[id(fd)] = r
        _gen_keep.append(fd)
    return r


_gen_keep = []


def ctor_params(p, cname):
    r = p.find_method(cname, "__init__")
    if r:
        a = r[2].args
        return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
    cd = p.cls(cname)
    if cd:
        fs = [s.target.id for s in cd.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        if fs:
            return fs
    return None


def ctor_fields(p, cname):
    """{field: parameter} for `self.field = param` statements of the constructor (and NamedTuple fields)."""
    r = p.find_method(cname, "__init__")
    out = {}
    if r:
        params = set(ctor_params(p, cname))
        for n in ast.walk(r[2]):
            tgt = val = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                tgt, val = n.target, n.value
            if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" \
                    and isinstance(val, ast.Name) and val.id in params:
                out[tgt.attr] = val.id
        return out
    ps = ctor_params(p, cname)
    return {x: x for x in ps} if ps else {}
