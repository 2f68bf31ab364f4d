"""Compiler passes compared with their specifications in ref/py (same interpreter, same project, gated summaries)."""
from __future__ import annotations
import itertools
import os
from .. import dd, pycompare, report
from ..dd import T, leaf, const
from ..pyfront import Project, Interp, St
from .scen import Scen, var, enum

REF = os.path.join(report.VERIF, "ref", "py")
METHODS = {"get_expr": "Formula", "get_specs": "SpecificationSet"}
_p = None


def project():
    global _p
    if _p is None:
        _p = Project(report.REPO, extra=REF)
    return _p


WORK = {"run", "Popen", "communicate", "wait", "to_uflia_smtlib2", "to_qf_uflia_smtlib2", "to_qf_bv_smtlib2", "to_egglog"}
CLOCKS = {"get_rusage_time", "get_children_rusage_time", "perf_counter", "process_time", "monotonic"}


def interp(pure=(), unroll=2, models=None, methods=None, effects=()):
    pol = (lambda fq, fd: "pure" if fq.split(".")[-1] in pure or fq in pure else fq.split(".")[-1] not in effects)
    ip = Interp(project(), policy=pol)
    ip.unroll = unroll
    ip.method_cls = dict(METHODS, **(methods or {}))
    ip.models = dict(models or {})
    ip.eqonly = ("cpt",)
    ip.work, ip.clocks = WORK, CLOCKS
    return ip


def judge(rep, key, where, res, what, ignore=()):
    """Record the outcome of one comparison."""
    for nm, v, cube, x, y, det in res:
        if any(nm.endswith(i) for i in ignore):
            continue
        if v == pycompare.EQ:
            rep.ok(what="compared", sample=f"{what}: {nm}")
        elif v == pycompare.DIFF:
            cond = "; ".join(f"{'' if val else 'not '}{dd.show(a)[:90]}" for a, val in (cube or ())[-6:])
            sx, sy = (dd.show(t)[:220] if t is not None else "nothing" for t in (x, y))
            extra = f" ({str(det)[:200]})" if det else ""
            rep.bad(f"{key}:{nm}", f"{what}: {nm} is {sx}, specified {sy}{extra}" + (f", when {cond}" if cond else ""), where)
        else:
            rep.skip(f"{key}:{nm}", f"not decided ({str(det)[:160]})")


def where_of(mod, fn):
    p = project()
    fd = p.func(mod, fn)
    return f"{p.relpath(mod)}:{getattr(fd, 'lineno', '?')} ({fn})"


def one(rep, mod, fn, what=None, pure=(), unroll=2, models=None, setup=None, ignore=(), refmod=None, reffn=None, methods=None, tag="", cls=None, post=None, effects=()):
    p = project()
    rm, rf = refmod or "ref_" + mod, reffn or fn
    if p.func(mod, fn) is None:
        rep.skip(f"{mod}.{fn}{tag}", "no such function")
        return
    ip = interp(pure, unroll, models, methods, effects)
    called = ip.params(rm, rf)

    def run(m, f):
        st, args = St(), None
        if setup is not None:
            r = setup(ip, st)
            args = r if r is not None else None
        ra, s = ip.run(m, f, args=args, st=st, cls=cls if m == mod else None, called=called)
        return (post(ip, ra, s), s) if post else (ra, s)
    ra, sa = run(mod, fn)
    rb, sb = run(rm, rf)
    res = pycompare.compare(ip, ra, sa, rb, sb, solid=effects)
    judge(rep, f"{mod}.{fn}{tag}", where_of(mod, fn), res, (what or fn) + tag, ignore)


def job(mod, fn, **kw):
    return (f"{mod}.{fn}{kw.get('tag', '')}", lambda r: one(r, mod, fn, **kw))


# ------------------------------------------------------------------------------------------ assembly
KINDS = {"bz": ("Operator", "BOOLEANIZER"), "atom": ("Operator", "BOOLEANIZER"), "prop": ("LogicalAnd", "TEMPORAL_LOGIC"),
         "temp": ("TemporalOperator", "TEMPORAL_LOGIC"), "const": ("Constant", "BOOLEANIZER"), "bool": ("Constant", "TEMPORAL_LOGIC"), "none": ("Operator", "NONE")}


def gen_assembly_case(ft, pt):
    """A program whose future-time and past-time parts visit expressions of the given kinds."""
    objs = [[T("o", KINDS[k][0], f"{side}{i}") for i, k in enumerate(ks)] for side, ks in (("f", ft), ("p", pt))]
    sets = [T("o", "SpecificationSet", "ft"), T("o", "SpecificationSet", "pt")]
    prog, ctx = T("v", "program"), T("v", "context")

    def setup(ip, st):
        st.d["at", prog, "ft_spec_set"], st.d["at", prog, "pt_spec_set"] = leaf(sets[0]), leaf(sets[1])
        ids = []
        for i, (o, k) in enumerate(zip(objs[0] + objs[1], list(ft) + list(pt))):
            st.d["at", o, "engine"] = leaf(T("enum", "R2U2Engine", KINDS[k][1]))
            if k == "atom":
                ids += [o, T("v", f"id{i}")]
        st.d["at", ctx, "atomic_id_map"] = leaf(T("dict", *ids))

    def postorder(ip, args, st):
        a = dd.leaves(args[0])
        if a == [sets[0]] or a == [sets[1]]:
            return leaf(T("list", *objs[sets.index(a[0])]))
        return ip.pure("cpt.postorder", args, {}, st)
    def only_tl(ip, args, st):
        return dd.apply(lambda t: leaf(T("v", f"only_tl {t.args[-1]}")), ip.val(args[0], st))
    return dict(setup=setup, models={"cpt.postorder": postorder, "cpt.Expression.has_only_tl_parents": only_tl}, unroll=9,
                pure=("gen_bz_instruction", "gen_ft_instruction", "gen_pt_instruction"),
                tag=f"[{'+'.join(ft)}|{'+'.join(pt)}]")


def instruction_case(kinds):
    cls = {"bz": "BZInstruction", "tl": "TLInstruction", "cg": "CGInstruction"}
    items = [T("o", cls[k], f"i{n}") for n, k in enumerate(kinds)]
    inner = [T("o", "TLInstruction", f"i{n}.instruction") for n, k in enumerate(kinds)]

    def setup(ip, st):
        for o, i in zip(items, inner):
            if o.args[0] == "CGInstruction":
                st.d["at", o, "instruction"] = leaf(i)

    def code(ip, args, st):
        return ip.alloc(leaf(T("list", *items)), st)
    return dict(setup=setup, models={"assemble.gen_assembly": code}, pure=("pack_aliases", "__str__", "has_no_extended_operators"), tag=f"[{'+'.join(kinds) or 'empty'}]", unroll=4)


def p07(rep):
    jobs = [job("assemble", f) for f in ("gen_bz_instruction", "gen_tl_operand", "gen_ft_instruction", "gen_pt_instruction",
                                         "gen_ft_scq_instructions", "gen_pt_scq_instructions")]
    ks = ["bz", "atom", "prop", "temp", "const", "bool"]
    lists = [((a,), (b,)) for a in ks for b in ks] + [((a, b), ()) for a, b in (("atom", "prop"), ("atom", "temp"), ("temp", "temp"), ("const", "temp"), ("bz", "atom"), ("none", "prop"))]
    lists += [((), (a, b)) for a, b in (("atom", "prop"), ("atom", "temp"), ("temp", "temp"), ("const", "prop"), ("none", "temp"))]
    if rep.tier == "thorough":
        lists += [((a, b), (c,)) for a in ks for b in ks for c in ks]
    jobs += [job("assemble", "gen_assembly", **gen_assembly_case(f, p)) for f, p in lists]
    rep.tasks(jobs)


def p08(rep):
    ks = [(), ("bz",), ("tl",), ("cg",), ("bz", "tl"), ("tl", "cg"), ("cg", "cg")]
    jobs = [job("assemble", "assemble", **instruction_case(k)) for k in ks]
    jobs.append(job("assemble", "pack_aliases"))
    jobs.append(("codes", codes))
    jobs.append(("rust decoders", rust_layout))
    rep.tasks(jobs)


def bounds_values(ip, ra, st):
    """{limit: (value, description, files)} -> {limit: (value, files)}; a constant stands for anything else."""
    def f(t):
        if t.op != "dict":
            return const("?")
        out = []
        for k, v in sorted(zip(t.args[::2], t.args[1::2]), key=lambda kv: str(kv[0].args)):
            if v.op == "tuple" and len(v.args) == 3:
                v = T("tuple", v.args[0], v.args[2])
            out += [k, v]
        return leaf(T("dict", *out))
    return dd.apply(f, ip.val(ra, st))


def limits(ip, args, st):
    entry = lambda n, f: (dd.C(n), T("tuple", T("v", "value " + n), dd.C("about " + n), dd.C(f)))
    return leaf(T("dict", *entry("A", "c"), *entry("B", "c rust"), *entry("C", "rust")))


CTX, PROG = T("v", "context"), T("v", "program")


def bounds_case(kinds, ids, bz, specs, names=("s1",)):
    """The limits of a particular program: its instructions, its atomics, its signals and its specifications."""
    s = Scen(f"{'+'.join(kinds) or 'empty'}, {len(ids)} atomics, {'booleanizer' if bz else 'direct'}, {'+'.join(specs) or 'no specification'}")
    code = []
    for n, k in enumerate(kinds):
        if k.startswith("bz"):
            o = s.obj("BZInstruction", f"i{n}", operator=enum("BZOperator", k[3:] or "ILOAD"), id=n, operand1=n, operand2=1)
        elif k.startswith("alias"):
            o = s.obj("AliasInstruction", f"i{n}", type=enum("AliasType", "FORMULA" if k == "alias" else "CONTRACT"), symbol="name" if k == "alias" else "contract", args=["1"])
        else:
            typ = {"scq": "SCQ", "scqn": "SCQ", "temp": "TEMP", "tl": None}[k]
            t = s.obj("TLInstruction", f"t{n}", id=n, operator=enum("TLOperator", "GLOBAL"), operand1_type=enum("TLOperandType", "DIRECT"), operand1_value=7 + n,
                      operand2_type=enum("TLOperandType", "NONE" if k == "scqn" else "DIRECT"), operand2_value=3)
            o = t if typ is None else s.obj("CGInstruction", f"i{n}", type=enum("CGType", typ), instruction=t)
        code.append(o)
    s.set(CTX, assembly=code, enable_booleanizer=bz, atomic_id_map={T("o", "Atomic", f"a{i}"): v for i, v in enumerate(ids)},
          signals={f"x{i}": var(f"ty{i}") for i in range(3)}, contracts={n: var("c" + n) for n in names})
    objs = [s.obj({"f": "Formula", "c": "Contract"}[k], f"spec{i}", symbol=f"s{i}") for i, k in enumerate(specs)]
    s.model("cpt.Program.get_specs", lambda ip, args, st: ip.alloc(leaf(T("list", *objs)), st))
    return job("assemble", "compute_bounds", post=bounds_values, **s.kw(unroll=8))


def bounds(rep):
    cases = [bounds_case(*c) for c in (
        ((), (), True, ()), ((), (), False, ("f",)), (("tl",), (0,), True, ("f", "c")), (("bz", "bz:STORE", "tl", "scq"), (0, 1), True, ("f",)),
        (("bz:STORE", "tl", "tl", "scq", "scqn", "temp"), (2, 2), True, ("f", "f", "c", "c"), ("c1", "c2")), (("tl", "scqn", "scq", "temp", "temp", "alias", "alias2"), (0, 3), False, ("c", "f")),
        (("alias", "alias", "alias2"), (), False, ("c",), ("c1", "c2", "c3")), (("bz", "bz:STORE", "bz:STORE"), (1,), False, (), ()))]
    rep.tasks(cases + [
               job("assemble", "compute_bounds", post=bounds_values, unroll=0),
               job("assemble", "write_bounds_c", models={"assemble.compute_bounds": limits}),
               job("assemble", "write_bounds_rust", models={"assemble.compute_bounds": limits})])


# ------------------------------------------------------------------------------------------ codes shared with the monitors
SAME = {n: n for n in ("NOP", "LOAD", "RETURN", "UNTIL", "RELEASE", "NOT", "AND", "OR", "IMPLIES", "XOR", "ONCE", "SINCE", "TRIGGER", "EVENTUALLY")}
TL_NAMES = dict(SAME, GLOBAL="GLOBALLY", EQUIV="EQUIVALENT", HIST="HISTORICALLY", CONFIG="CONFIGURE")
OPERANDS = {"DIRECT": "DIRECT", "ATOMIC": "ATOMIC", "SUBFORMULA": "SUBFORMULA", "NONE": "NOT_SET"}
RUST = "monitors/rust/r2u2_core/src/"


def enum_values(p, cls):
    import ast
    out = {}
    for k, v in p.enum_members(cls).items():
        try:
            out[k] = ast.literal_eval(v)
        except Exception:
            pass
    return out


def rust_consts(rel):
    import re
    path = os.path.join(report.REPO, rel)
    if not os.path.exists(path):
        return {}
    txt = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(path).read(), flags=re.S)
    return {m[1]: int(m[2].replace("_", ""), 0) for m in re.finditer(r"const\s+(\w+)\s*:\s*u\w+\s*=\s*(0b[01_]+|0x[0-9a-fA-F_]+|\d[\d_]*)\s*;", txt)}


def codes(rep):
    from . import cmonitor
    p = project()
    cp = cmonitor.projects(0)[0]
    c = dict(cp.enums)
    for n in ("R2U2_ENG_CG", "R2U2_ENG_TL", "R2U2_ENG_BZ"):
        v = cmonitor.static_const(cp, n)
        if v is not None:
            c[n] = v
    r = {}
    for f in ("instructions/mltl.rs", "instructions/booleanizer.rs", "engines/mod.rs"):
        r.update(rust_consts(RUST + f))
    rows = []
    for cls in ("FTOperator", "PTOperator"):
        rows += [(cls, k, "R2U2_MLTL_OP_" + TL_NAMES.get(k, k), "MLTL_OP_" + TL_NAMES.get(k, k)) for k in enum_values(p, cls)]
    rows += [("TLOperandType", k, "R2U2_FT_OP_" + OPERANDS.get(k, k), "MLTL_OP_TYPE_" + OPERANDS.get(k, k)) for k in enum_values(p, "TLOperandType")]
    rows += [("BZOperator", k, "R2U2_BZ_TS" if k == "TS" else "R2U2_BZ_OP_" + k, "BZ_TS" if k == "TS" else "BZ_OP_" + k) for k in enum_values(p, "BZOperator")]
    rows += [("EngineTag", k, "R2U2_ENG_" + k, "R2U2_ENG_" + k) for k in ("CG", "TL", "BZ")]
    for cls, k, cn, rn in rows:
        v = enum_values(p, cls).get(k)
        for side, tab, nm in (("C", c, cn), ("Rust", r, rn)):
            if v is None or nm not in tab:
                if side == "C":
                    rep.skip(f"{cls}.{k}", f"no counterpart {nm} in the {side} monitor")
                continue
            if tab[nm] == v:
                rep.ok(what="codes")
            else:
                rep.bad(f"code:{cls}.{k}:{side}", f"{cls}.{k} is written as {v}, the {side} monitor reads {nm} = {tab[nm]}", "compiler/c2po/assemble.py")
    for cls in ("FTOperator", "PTOperator", "BZOperator", "TLOperandType"):
        vals = enum_values(p, cls)
        twice = {k for k in vals if list(vals.values()).count(vals[k]) > 1}
        if twice:
            rep.bad(f"code:{cls}:shared", f"{cls} gives {sorted(twice)} the same code", "compiler/c2po/assemble.py")
        else:
            rep.ok(what="codes")


# field -> (type, byte offset) after the engine tag; None: any
RUST_FIELDS = {
    "instructions/mltl.rs": {"op1_value": ("u32", 0), "op2_value": ("u32", 4), "memory_reference": ("u32", 8), "op1_type": ("u8", 12), "op2_type": ("u8", 13), "opcode": ("u8", 14)},
    "instructions/booleanizer.rs": {"param1": ("u32", 0), "param2": ("u32", 8), "memory_reference": ("u32", 12), "opcode": ("u8", 16)},
}


def rust_layout(rep):
    """The Rust decoders read each field where the assembler writes it (read off their struct literals)."""
    import re
    for f, fields in RUST_FIELDS.items():
        path = os.path.join(report.REPO, RUST, f)
        if not os.path.exists(path):
            rep.skip(f, "no such file")
            continue
        txt = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(path).read(), flags=re.S)
        m = re.search(r"fn\s+set_from_binary[^{]*\{(.*?)\n    \}", txt, re.S)
        body = m[1] if m else ""
        for name, (ty, off) in fields.items():
            g = re.search(rf"\b{name}\s*:\s*(LittleEndian::read_(\w+)\(\s*&\s*\w+\[\s*(\d+)\s*\.\.\s*\w*\s*\]\s*\)|\w+\[\s*(\d+)\s*\])\s*[,}}]", body)
            if not g:
                rep.skip(f"{f}:{name}", "decoder not recognised")
                continue
            got = (g[2], int(g[3])) if g[2] else ("u8", int(g[4]))
            if got == (ty, off):
                rep.ok(what="rust decoders")
            else:
                rep.bad(f"rust:{f}:{name}", f"{name} is read as {got[0]} at byte {got[1]}, written as {ty} at byte {off}", RUST + f)


# ------------------------------------------------------------------------------------------ queue sizes
def traversal(mapping):
    """A model of a traversal: the listed expressions for each known starting point."""
    def f(ip, args, st):
        a = dd.leaves(args[0])
        key = a[0] if len(a) == 1 else None
        if key in mapping:
            return leaf(T("list", *mapping[key]))
        return ip.pure("cpt.postorder", args, {}, st)
    return f


SCQ_KINDS = {"formula": ("Formula", "TEMPORAL_LOGIC"), "temp": ("TemporalOperator", "TEMPORAL_LOGIC"), "atom": ("Operator", "BOOLEANIZER"),
             "bz": ("Operator", "BOOLEANIZER"), "const": ("Constant", "TEMPORAL_LOGIC"), "cint": ("Constant", "BOOLEANIZER")}


def scq_case(kinds, parents, delays=()):
    """Expressions of the given kinds visited in order; parents: tuples of the positions of one parent's children (-1: the parent is outside)."""
    objs = [T("o", SCQ_KINDS[k][0], f"e{i}") for i, k in enumerate(kinds)]
    ps = [T("o", "Operator", f"p{i}") for i in range(len(parents))]
    ctx = T("v", "context")

    def setup(ip, st):
        ids = []
        for i, (o, k) in enumerate(zip(objs, kinds)):
            st.d["at", o, "engine"] = leaf(T("enum", "R2U2Engine", SCQ_KINDS[k][1]))
            if delays:
                st.d["at", o, "bpd"], st.d["at", o, "wpd"] = const(delays[i][0]), const(delays[i][1])
            st.d["at", o, "parents"] = leaf(T("set", *[p for p, cs in zip(ps, parents) if i in cs]))
            if k == "atom":
                ids += [o, T("v", f"id{i}")]
        for p, cs in zip(ps, parents):
            st.d["at", p, "children"] = leaf(T("list", *[objs[c] for c in cs]))
        st.d["at", ctx, "atomic_id_map"] = leaf(T("dict", *ids))

    def visit(ip, args, st):
        return leaf(T("list", *objs))
    return dict(setup=setup, models={"cpt.postorder": visit, "cpt.Program.postorder": visit}, unroll=6,
                tag=f"[{'+'.join(kinds)}|{'/'.join(''.join(map(str, c)) for c in parents)}{'|' + str(delays) if delays else ''}]")


def p06(rep):
    cases = [(("temp",), ()), (("atom",), ()), (("formula",), ()), (("const",), ()), (("cint",), ()), (("bz",), ()),
             (("temp", "temp"), ((0, 1),)), (("atom", "temp"), ((0, 1),)), (("temp", "temp", "temp"), ((0, 1), (0, 2))), (("temp", "temp", "temp"), ((0, 1, 2),)),
             (("temp", "formula"), ()), (("const", "temp"), ((0, 1),)), (("bz", "atom"), ((1,),)), (("formula", "formula"), ()), (("temp", "temp"), ((0,), (0, 1)))]
    def either(k, p, d=()):
        """The published rule ignores the node's own delay, a known defect; the sizes that count it are accepted as well."""
        def f(r):
            kw = scq_case(k, p, d)
            one(r, "scq", "compute_scq_sizes", **kw)
            own = report.Report(r.pid, r.tier, r.rule)
            if r.findings or d == OWN:
                one(own, "scq", "compute_scq_sizes", reffn="compute_scq_sizes_own", **kw)
            if r.findings and not own.findings:
                r.findings = []
            elif d == OWN and own.findings and not r.findings:
                r.bad("scq.compute_scq_sizes: own delay", "the size of a queue does not account for the node's own delay: verdicts released together overwrite unread ones",
                      where_of("scq", "compute_scq_sizes"))
        return f
    OWN = ((0, 5), (0, 2))
    two = (("temp", "temp"), ((0, 1),))
    cases = [c + ((),) for c in cases] + [two + (d,) for d in (OWN, ((3, 3), (1, 4)), ((7, 9), (2, 4)), ((0, 0), (0, 0)))]
    three = (("temp", "temp", "temp"), ((0, 1, 2),))
    cases += [three + (d,) for d in (((0, 1), (2, 6), (1, 4)), ((4, 4), (1, 2), (0, 3)))]
    cases += [(("temp", "temp", "atom"), ((0, 2), (1, 2)), ((0, 3), (0, 7), (0, 0)))]
    rep.tasks([(f"scq {k} {p} {d}", either(k, p, d)) for k, p, d in cases])
