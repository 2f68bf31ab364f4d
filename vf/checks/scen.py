"""Abstract heaps for comparing compiler passes: named objects of known classes, symbolic fields, known traversal orders."""
from __future__ import annotations
from .. import dd
from ..dd import T, leaf

WALKS = ("cpt.postorder", "cpt.preorder", "cpt.Program.postorder", "cpt.Program.preorder", "cpt.Program.postorder_with_definitions")


def val(x):
    """A Python value as an abstract value (terms stand for themselves)."""
    if isinstance(x, dd.Term):
        return x
    if isinstance(x, (list, tuple, set)):
        return T({list: "list", tuple: "tuple", set: "set"}[type(x)], *[val(a) for a in x])
    if isinstance(x, dict):
        return T("dict", *[val(a) for kv in x.items() for a in kv])
    return dd.C(x)


def var(name):
    return T("v", name)


def enum(cls, member):
    return T("enum", cls, member)


class Scen:
    def __init__(self, tag=""):
        self.tag, self.fields, self.walks, self.more, self.bind = tag, [], {}, {}, {}

    def obj(self, cls, name, **attrs):
        o = T("o", cls, name)
        self.set(o, **attrs)
        return o

    def set(self, o, **attrs):
        for k, v in attrs.items():
            self.fields.append((("at", o, k), v))
        return o

    def arg(self, name, value):
        self.bind[name] = value

    def walk(self, start, items=None, pre=None):
        """Traversals that begin at `start`: children first, and parents first."""
        if items is None:
            items = pre[::-1]
        self.walks[val(start)] = (list(items), list(pre) if pre is not None else list(items)[::-1])

    def model(self, fq, fn):
        self.more[fq] = fn

    def kw(self, **kw):
        def setup(ip, st):
            for k, v in self.fields:
                v = val(v)
                # containers live in a cell of their own: passes update them in place
                st.d[k] = ip.alloc(leaf(v), st) if v.op in ("list", "dict", "set") else leaf(v)
            return {n: leaf(val(v)) for n, v in self.bind.items()} or None

        def visit(name):
            def f(ip, args, st):
                a = dd.leaves(ip.val(args[0], st))
                if len(a) == 1 and a[0] in self.walks:
                    return leaf(T("list", *self.walks[a[0]]["pre" in name]))
                return ip.pure(name, args, {}, st)
            return f
        models = {n: visit(n) for n in WALKS}
        models.update(self.more)
        return dict(setup=setup, models=models, tag=f"[{self.tag}]" if self.tag else "", **kw)
