"""Map files, trace headers and generated mappings: the summary of each command on file shapes against the written rules."""
from __future__ import annotations
import itertools
from .. import dd
from ..dd import C, leaf
from .compiler import job
from .scen import Scen, var

MAPS = ["p:0\nq:1", "q:3\np:3", "p:12\nq:104\nunused:2", "p:0\nq:1\np:7", "p:0", "", "p:0\n\nq:1", "p 0", "p:x\nq:1", ":1", "1p:0", "p:0\nq;1", "p:-1\nq:0", "_p9:4\nq:1\np:2",
        "a[0]:3\na[1]:5", "a[0..2]:4", "a[0..0]:9", "a[1..3]:0\np:6\nq:7", "a[10..12]:10", "a[8..11]:2", "p:5\nq:6\na[0..1]:5", "a[0]:3\na[0..1]:7", "a[12]:3", "a[100]:5",
        "a.x:1\np:0\nq:2", "arr[0].y:1\np:0\nq:2", "a[2..1]:3", "p:0\nq:1\nr:2\ns:3\nt:4\nu:5"]
TRACES = ["#p,q\n0,1\n1,1", "# p, q\n0,1", "#q,p\n0,1\n1,1\n0,0", "#p,q,p\n0,1,1", "#p\n0", "#p,q", "0,1\n1,0", "0,1", "", "\n0,1", "#q , x,p \n1,1,1", "#a[0],a[1]\n1,1", "#p,q\n0,1\n"]
IGNORE = ("dict('filename', filename)",)  # notes the command leaves in its own options
PROGS = {"p q": ("p", "q"), "a": ("a[0]", "a[1]"), "wide": ("a[10]", "a[11]", "a[12]"), "none": (), "p p": ("p", "p"), "q": ("q",), "all": ("p", "q", "a[0]", "a[2]")}


def program(s, names):
    sigs = [s.obj("Signal", f"signal{i} {n}", symbol=C(n), signal_id=var(f"id{i}")) for i, n in enumerate(names)]
    top = s.obj("Program", "program")
    s.arg("program", top)
    s.walk(top, sigs)
    ctx = s.obj("Context", "context", signal_mapping={}, map_filename=C(""), trace_filename=C(""), trace_length=C(-1))
    s.arg("context", ctx)
    return sigs, ctx


def options(s, **kw):
    s.arg("options", {k: v for k, v in kw.items()})


def reads(s, text):
    s.model("util.read_file", lambda ip, a, st: leaf(C(text)))


def parse_jobs():
    out = []
    for fn, mod, texts, opt in (("parse_map_file", "map", MAPS, {}), ("parse_trace_file", "trace", TRACES, {})):
        for text, (pn, names) in itertools.product([None] + texts, PROGS.items()):
            s = Scen(f"{text!r} for {pn}")
            program(s, names)
            options(s, filename=var("filename"), **opt)
            reads(s, text)
            out.append(job(mod, fn, refmod="ref_map", ignore=IGNORE, **s.kw(unroll=16)))
    return out


def generate_jobs():
    out = []
    for n, valid, output in itertools.product((0, 1, 3), (True, False), (None, "out")):
        s = Scen(f"{n} signals {'mapped' if valid else 'unmapped'} {output or 'no file'}")
        sigs, ctx = program(s, [f"s{i}" for i in range(n)])
        s.set(ctx, signals={C(f"s{i}"): var(f"type{i}") for i in range(n)}, signal_mapping={C(f"s{i}"): var(f"pos{i}") for i in range(n)} if valid else {})
        options(s, output=var("output") if output else C(None))
        s.model("cpt.has_valid_signal_mapping", lambda ip, a, st, v=valid: dd.TRUE if v else dd.FALSE)
        out.append(job("map", "generate_map", refmod="ref_map", **s.kw(unroll=8)))
    return out


def trace_jobs():
    out = []
    kinds = ("BoolType", "FloatType", "IntType")
    for ts, length, output, show, seed in itertools.product(((), (0,), (1,), (2,), (2, 0, 1), (0, 0)), (0, 1, 3), (None, "out"), (False, True), (None, "seed")):
        if (seed or show) and len(ts) != 1:
            continue
        s = Scen(f"{[kinds[t] for t in ts]} length {length} {output} {show} {seed}")
        top = s.obj("Program", "program")
        s.arg("program", top)
        n = len(ts)
        ctx = s.obj("Context", "context", signals={C(f"s{i}"): s.obj(kinds[t], f"type{i}") for i, t in enumerate(ts)},
                    signal_mapping={C(f"s{i}"): C((i * 2 + 1) % 5) for i in range(n)}, trace=[])
        s.arg("context", ctx)
        s.model("util.get_rusage_time", lambda ip, a, st: dd.const(0))
        s.model("log.debug", lambda ip, a, st: dd.NONE)
        options(s, length=C(length), min=var("min"), max=var("max"), seed=var("seed") if seed else C(None), output=var("output") if output else C(None), print=C(show),
                float_precision=var("precision"))
        out.append(job("trace", "generate_trace", refmod="ref_map", effects=("seed",), **s.kw(unroll=8)))
    return out


def p26(rep):
    rep.tasks(parse_jobs() + generate_jobs() + trace_jobs())
