"""Behaviour-preserving rewrites of the compiler, to see that the checks stay quiet: refactor.py KIND OUTDIR [FILE ...]"""
import ast, copy, os, shutil, sys

SRC = os.environ.get("SRC", "/repo")


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def own(fn):
    """Nodes of a function, not of functions nested in it."""
    out, work = [], list(fn.body)
    while work:
        n = work.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        work += list(ast.iter_child_nodes(n))
    return out


class Each(ast.NodeTransformer):
    """Rewrites statement lists; subclasses override stmts()."""
    def visit(self, n):
        n = self.generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and (not b or isinstance(b[0], ast.stmt)) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.stmts(b, n))
        return self.expr(n) if isinstance(n, ast.expr) else n

    def stmts(self, b, parent):
        return b

    def expr(self, n):
        return n


COUNT = [0]


def fresh(p="_t"):
    COUNT[0] += 1
    return f"{p}{COUNT[0]}"


class Invert(Each):
    def stmts(self, b, parent):
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return b


class Elif(Each):
    """if..elif with bodies that end in return/raise/continue: separate ifs"""
    def stmts(self, b, parent):
        out = []
        for s in b:
            out.append(s)
            while isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                rest = s.orelse
                s.orelse = []
                out += rest
                s = rest[0] if len(rest) == 1 else None
        return out


class Nest(Each):
    """early exits become else branches"""
    def stmts(self, b, parent):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)) and b[i + 1:]:
                s.orelse = self.stmts(b[i + 1:], parent)
                return b[:i + 1]
        return b


class Temp(Each):
    """return and argument values through temporaries"""
    def stmts(self, b, parent):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh()
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                s = ast.Return(ast.Name(t, ast.Load()))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and not any(isinstance(a, ast.Starred) for a in s.value.args):
                c = s.value
                for i, a in enumerate(c.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute, ast.JoinedStr)):
                        t = fresh()
                        out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                        c.args[i] = ast.Name(t, ast.Load())
                    elif not isinstance(a, (ast.Name, ast.Constant)):
                        break
            out.append(s)
        return out


class CondTemp(Each):
    def stmts(self, b, parent):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = fresh("_c")
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.test))
                s.test = ast.Name(t, ast.Load())
            out.append(s)
        return out


class AndNest(Each):
    def stmts(self, b, parent):
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                vs = s.test.values
                inner = s.body
                for v in vs[:0:-1]:
                    inner = [ast.If(v, inner, [])]
                s.test, s.body = vs[0], inner
        return b


class DeMorgan(Each):
    def expr(self, n):
        if isinstance(n, ast.BoolOp) and getattr(n, "boolctx", False):
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n

    def visit_If(self, n):
        self.mark(n.test)
        return n

    def visit(self, n):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.BoolOp):
            n.test.boolctx = True
        return super().visit(n)


class Flip(Each):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def expr(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class InOr(Each):
    """isinstance of a tuple, membership in a literal: disjunctions"""
    def expr(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], t], []) for t in n.args[1].elts])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.left, (ast.Name, ast.Attribute)) and isinstance(n.comparators[0], (ast.Set, ast.List, ast.Tuple)) \
                and len(n.comparators[0].elts) > 1 and not any(isinstance(e, ast.Starred) for e in n.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n


class CompLoop(Each):
    """list comprehensions assigned to a name or returned become loops"""
    def stmts(self, b, parent):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async:
                g, t = v.generators[0], fresh("_l")
                ren = {n.id: fresh("_e") for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(ren.get(n.id, n.id), n.ctx)
                r = R()
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [r.visit(v.elt)], []))]
                for c in g.ifs[::-1]:
                    body = [ast.If(r.visit(c), body, [])]
                out.append(ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())))
                out.append(ast.For(r.visit(g.target), g.iter, body, []))
                s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class ForList(Each):
    """for x in xs -> for x in list(xs)"""
    def stmts(self, b, parent):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) :
                s.iter = ast.Call(ast.Name("list", ast.Load()), [s.iter], [])
        return b


class LoopComp(Each):
    """for x in e: l.append(f(x)) after l = [] becomes a comprehension"""
    def stmts(self, b, parent):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) \
                    and s.body[0].value.func.attr == "append" and isinstance(s.body[0].value.func.value, ast.Name):
                nm = s.body[0].value.func.value.id
                tgt = p.targets[0] if isinstance(p, ast.Assign) else p.target if isinstance(p, ast.AnnAssign) else None
                if isinstance(tgt, ast.Name) and tgt.id == nm and isinstance(p.value, ast.List) and not p.value.elts:
                    out[-1] = ast.Assign([ast.Name(nm, ast.Store())], ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))
                    continue
            out.append(s)
        return out


class IfExpStmt(Each):
    def stmts(self, b, parent):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                out.append(ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], []))
                out.append(ast.Return(s.value.orelse))
            else:
                out.append(s)
        return out


class FStr(Each):
    """f-strings become str.format / concatenation"""
    def expr(self, n):
        if isinstance(n, ast.JoinedStr) and n.values and all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in n.values):
            parts = [v if isinstance(v, ast.Constant) else ast.Call(ast.Name("str", ast.Load()), [v.value], []) for v in n.values]
            e = parts[0]
            for p in parts[1:]:
                e = ast.BinOp(e, ast.Add(), p)
            return e
        return n


class AugPlain(Each):
    def stmts(self, b, parent):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and not isinstance(s.value, (ast.List, ast.ListComp)):
                b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return b


class Rename(ast.NodeTransformer):
    """rename local variables"""
    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        glob = {n for s in ast.walk(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        inner = [n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f]
        hidden = {a.arg for g in inner for a in g.args.args} | {g.name for g in inner if isinstance(g, ast.FunctionDef)} | {n.id for g in inner for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - glob - hidden
        imp = {(a.asname or a.name).split(".")[0] for s in ast.walk(f) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        exc = {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler)}
        loc -= imp | exc
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_v"
        return f


class RenameParams(ast.NodeTransformer):
    """rename positional parameters of module-level functions nobody calls by keyword"""
    def __init__(self, kwused):
        self.kw = kwused

    def visit_FunctionDef(self, f):
        inner = {a.arg for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f for a in g.args.args}
        stored = set()
        for a in f.args.args:
            if a.arg in ("self", "cls", "p", "t") or a.arg in self.kw or a.arg in inner:
                continue
            new = a.arg + "_p"
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id == a.arg:
                    n.id = new
            a.arg = new
        return f


class Helper(ast.NodeTransformer):
    """the body of each `if` without control flow or local assignment becomes a helper next to the function"""
    def __init__(self):
        self.new = []

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and "p" not in [a.arg for a in s.args.args]:
                self.lift(s)
            out.append(s)
        c.body = out
        return c

    def visit_FunctionDef(self, f):
        self.lift(f)
        return f

    def lift(self, f):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return
        locs = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args} | {n.name for n in own(f) if isinstance(n, ast.FunctionDef)}
        for n in own(f):
            if not isinstance(n, (ast.If, ast.For)):
                continue
            body = n.body
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.Try, ast.NamedExpr, ast.Lambda, ast.Import, ast.ImportFrom, ast.With, ast.Delete)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                   or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for s in body for x in ast.walk(s)):
                continue
            used = sorted({x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name)} & locs)
            h = fresh("_h")
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), body, [], None))
            n.body = [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]


class RetHelper(Helper):
    """every returned call/boolean expression moves into a helper"""
    def lift(self, f):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return
        locs = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args} | {n.name for n in own(f) if isinstance(n, ast.FunctionDef)}
        for n in own(f):
            e = n.value if isinstance(n, (ast.Return, ast.Assign)) else n.test if isinstance(n, ast.If) else None
            if e is None or isinstance(e, (ast.Name, ast.Constant)) or any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.comprehension)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals")
                                                                             for x in ast.walk(e)):
                continue
            used = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & locs)
            h = fresh("_r")
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(e)], [], None))
            call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
            if isinstance(n, ast.If):
                n.test = call
            else:
                n.value = call


class WhileFor(Each):
    """for x in range(n) / for x in list: counted while loops (no continue inside)"""
    def stmts(self, b, parent):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Yield)) for x in ast.walk(s)) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name) and len(s.iter.args) in (1, 2):
                a = s.iter.args
                lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])
                i, h = fresh("_i"), fresh("_n")
                out.append(ast.Assign([ast.Name(i, ast.Store())], lo))
                out.append(ast.Assign([ast.Name(h, ast.Store())], hi))
                out.append(ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                                     [ast.Assign([s.target], ast.Name(i, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], []))
                continue
            out.append(s)
        return out


class Enumer(Each):
    """for x in xs (a name bound to a list) -> for i, x in enumerate(xs)"""
    def stmts(self, b, parent):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute, ast.Call)):
                s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
                s.target = ast.Tuple([ast.Name(fresh("_i"), ast.Store()), s.target], ast.Store())
        return b


class Walrus(Each):
    """two neighbouring plain assignments of independent names are swapped"""
    def stmts(self, b, parent):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and not any(isinstance(n, (ast.Call, ast.Await)) for n in ast.walk(s.value)) for s in (x, y)):
                tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
                if tx not in ast.unparse(y) and ty not in ast.unparse(x):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b


KINDS = dict(invert=Invert, elif_=Elif, nest=Nest, temp=Temp, condtemp=CondTemp, andnest=AndNest, demorgan=DeMorgan, flip=Flip, inor=InOr, comploop=CompLoop, forlist=ForList, loopcomp=LoopComp,
             ifexp=IfExpStmt, fstr=FStr, augplain=AugPlain, rename=Rename, params=RenameParams, helper=Helper, rethelper=RetHelper, whilefor=WhileFor, enumer=Enumer, swap=Walrus, plain=None)
SKIP = {"sly", "__pycache__"}


def main(kind, out, files):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "monitors"))
    shutil.copytree(os.path.join(SRC, "compiler"), os.path.join(out, "compiler"))
    shutil.copytree(os.path.join(SRC, "monitors", "c"), os.path.join(out, "monitors", "c"))
    if os.path.isdir(os.path.join(SRC, "monitors", "rust")):
        shutil.copytree(os.path.join(SRC, "monitors", "rust"), os.path.join(out, "monitors", "rust"), ignore=shutil.ignore_patterns("target"))
    d = os.path.join(out, "compiler", "c2po")
    todo = files or sorted(f for f in os.listdir(d) if f.endswith(".py"))
    trees = {f: ast.parse(open(os.path.join(d, f)).read()) for f in todo}
    alltrees = [ast.parse(open(os.path.join(r, f)).read()) for r, _, fs in os.walk(os.path.join(out, "compiler")) for f in fs if f.endswith(".py")]
    kw = {k.arg for t in alltrees for n in ast.walk(t) if isinstance(n, ast.Call) for k in n.keywords}
    for f, t in trees.items():
        for k in kind.split("+"):
            if KINDS[k] is None:
                continue
            tr = KINDS[k](kw) if k == "params" else KINDS[k]()
            t = tr.visit(t)
            if getattr(tr, "new", None):
                # helpers go after the imports
                i = max([j for j, s in enumerate(t.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1) + 1
                t.body[i:i] = tr.new
            t = ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        with open(os.path.join(d, f), "w") as h:
            h.write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3:])
