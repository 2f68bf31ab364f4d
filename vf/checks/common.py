import ast, os
from .. import report
from ..pyfront import Project

_p = None


def project():
    global _p
    if _p is None:
        _p = Project(report.REPO)
    return _p


def command_functions(p):
    """{command name: (module, function)} from the command objects the modules define."""
    out = {}
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if nm == "Command":
                    kw = {k.arg: k.value for k in n.keywords}
                    pos = ["name", "description", "options", "func", "guards"]
                    for i, a in enumerate(n.args):
                        if i < len(pos):
                            kw.setdefault(pos[i], a)
                    if isinstance(kw.get("name"), ast.Constant) and kw.get("func") is not None:
                        fn = kw["func"]
                        fname = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
                        out[kw["name"].value] = (m.name, fname)
    return out
