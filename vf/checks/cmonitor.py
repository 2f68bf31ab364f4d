"""Checks of the C monitor against its specified transfer functions (ref/c)."""
from __future__ import annotations
import os
from .. import report, cfront, ccompare, dd
from ..dd import T, C, leaf, const, br, ite, apply, atom, truth, TRUE, FALSE, NONE, Node

SRC = os.path.join(report.REPO, "monitors/c/src")
REF = os.path.join(report.VERIF, "ref/c")
_cache = {}


def projects(aux=0):
    if aux not in _cache:
        d = [f"R2U2_AUX_STRING_SPECS={aux}"]
        _cache[aux] = (cfront.CProject(SRC, defines=d), cfront.CProject(REF, defines=d))
    return _cache[aux]


# ------------------------------------------------ interface models
CB = "r2u2_scq_control_block_t"


def field_loc(ptr, region):
    return apply(lambda p: leaf(T("F", region, p)), ptr)


def arena_ptr(ip, arena, st):
    v = ip.read(ip.field(arena, "r2u2_scq_arena_t", "control_blocks", {"qualType": CB + " *"}), st, {"qualType": CB + " *"})
    return v


def m_read(ip, vals, args, st, fr, e):
    """r2u2_scq_read: ready and verdict as functions of (arena, parent, child, side, next_time of the parent)."""
    arena, parent, child, num, result = vals
    cb = arena_ptr(ip, arena, st)
    blk = apply(lambda c, p: leaf(cfront.mk_at(c, p)), cb, cfront.numn(parent))
    nt = ip.read(field_loc(blk, CB + ".next_time"), st, {"qualType": "uint32_t"})
    num = cfront.numn(num)
    key = lambda c, p, k, n, t: T("scqread", c, p, k, n, t)
    rdy = apply(lambda *a: atom(T("truthy", T("rdready", key(*a)))), cb, parent, child, num, nt)
    word = apply(lambda *a: br(T("truthy", T("rdbit", key(*a))), leaf(T("vw", 1, T("rdt", key(*a)))), leaf(T("vw", 0, T("rdt", key(*a))))),
                 cb, parent, child, num, nt)
    s2 = st.copy()
    ip.write_lv(ip.deref(result, {"qualType": "r2u2_verdict"}), word, s2, {"qualType": "r2u2_verdict"})
    st.d = ip.merge(rdy, s2, st).d
    return rdy


def m_write(ip, vals, args, st, fr, e):
    arena, qid, v = vals
    cb = arena_ptr(ip, arena, st)
    v = apply(lambda t: cfront.word_leaf(cfront.num(t)) if t.op != "vw" else leaf(t), v)
    ip.emit("scq_write", [cb, cfront.numn(qid), v], st, e, result=False)
    return const(0)


cfront.dd.NONNEG_OPS |= {"rdt"}


def rd_facts(t):
    if t.op == "rdt":
        k, d = dd.lin_parts(t.args[0].args[4])
        d = dict(d)
        d[t] = d.get(t, 0) - 1
        return [(k, {x: c for x, c in d.items() if c})]
    return []


def protos_ok(cp, name, types):
    p = cp.protos.get(name)
    if p is None:
        return False
    got = [cp.canon(c["type"]) for c in p.get("inner", []) if c.get("kind") == "ParmVarDecl"]
    return got == types


READ_T = ["r2u2_scq_arena_t", "unsigned int", "unsigned int", "bool", "unsigned int *"]
WRITE_T = ["r2u2_scq_arena_t", "unsigned int", "unsigned int"]

OPS = {"NOP": 31, "LOAD": 29, "RETURN": 28, "EVENTUALLY": 27, "GLOBALLY": 26, "UNTIL": 25, "RELEASE": 24, "NOT": 23, "AND": 22, "OR": 21,
       "IMPLIES": 20, "XOR": 17, "EQUIVALENT": 16, "ONCE": 11, "HISTORICALLY": 10, "SINCE": 9, "TRIGGER": 8, "invalid opcode": 5}
OPT = {"DIRECT": 1, "ATOMIC": 0, "SUBFORMULA": 2, "NOT_SET": 3}
INS = "r2u2_mltl_instruction_t"


def show_cmp(r):
    name, v, cube, x, y, det = r
    c = " and ".join(("" if b else "not ") + dd.show(a)[:90] for a, b in (cube or ())[:10])
    if isinstance(det, tuple) and len(det) == 3:
        return f"{name}: cell {dd.show(det[0])[:80]} becomes {dd.show(det[1])[:160]}, specified {dd.show(det[2])[:160]}; when {c}"
    return f"{name}: {dd.show(x)[:200]}, specified {dd.show(y)[:200]}; when {c}"


def layout(cp):
    """Names of the fields of the monitor's records."""
    return {n: sorted(f for f, _ in d["fields"]) for n, d in cp.records.items() if n.startswith(("r2u2_", "program_count")) and d.get("fields")}


def layout_ok(aux):
    """The cells of both sides can be matched up only while the records have the same fields."""
    if ("layout", aux) not in _cache:
        a, b = projects(aux)
        la, lb = layout(a), layout(b)
        _cache["layout", aux] = [n for n in lb if n in la and la[n] != lb[n]] + [n for n in lb if n not in la]
    return _cache["layout", aux]


def compare_fn(r, what, mk, name, aux, cst, key, ignore=(), assume=None, factfn=None, args=None, ref=None, budget=60000, rv=True):
    """Compare the summary of one function; records obligations and findings."""
    cp, cr = projects(aux)
    if cp.errors:
        r.skip(what, "front end: " + str(cp.errors[0])[:200])
        return
    if layout_ok(aux):
        r.skip(what, f"records differ from the specified ones: {layout_ok(aux)}"[:200])
        return
    if name not in cp.funcs:
        r.skip(what, f"function {name} not found")
        return
    try:
        ipa, ipb = mk(cp), mk(cr)
        a = ipa.run(name, args=args(ipa) if args else None)
        b = ipb.run(ref or name, args=args(ipb) if args else None)
        res = ccompare.compare(ipa, a, ipb, b, assume=assume, factfn=factfn, ignore=ignore, budget=budget, rv=rv)
    except (cfront.Unsupported, dd.Blowup, RecursionError, KeyError, AssertionError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError, NotImplementedError) as ex:
        r.skip(what, f"{type(ex).__name__}: {str(ex)[:200]}")
        if os.environ.get("VF_DEBUG"):
            import traceback
            traceback.print_exc()
        return
    for x in res:
        nm, v = x[0], x[1]
        if v == ccompare.UNK:
            r.skip(what + " " + nm, "not decided: " + show_cmp(x)[:400])
            continue
        r.ok(1, what.split(":")[0])
        if v == ccompare.DIFF:
            r.bad(f"{key}:{nm}", f"{what}: {show_cmp(x)}", f"{name} (monitors/c)")


def p09(r):
    mods = {"r2u2_scq_read": m_read, "r2u2_scq_write": m_write}
    jobs = []
    for aux in (0, 1):
        cp, cr = projects(aux)
        if not (protos_ok(cp, "r2u2_scq_read", READ_T) and protos_ok(cp, "r2u2_scq_write", WRITE_T)):
            r.skip("queue interface", "r2u2_scq_read / r2u2_scq_write have another signature")
            return
        for op, code in OPS.items():
            if aux and op != "RETURN":
                continue
            two = op in ("UNTIL", "RELEASE", "SINCE", "TRIGGER", "AND", "OR", "EQUIVALENT")
            one = op in ("LOAD", "RETURN", "NOT")
            for t1 in (OPT if one or two else ["SUBFORMULA"]):
                for t2 in (OPT if two else ["SUBFORMULA"]):
                    def job(s, aux=aux, op=op, code=code, t1=t1, t2=t2):
                        cst = {INS + ".opcode": C(code), INS + ".op1_type": C(OPT[t1]), INS + ".op2_type": C(OPT[t2])}
                        mk = lambda p: cfront.CInterp(p, models=mods, cst=cst, opaque=("r2u2_aux_formula_report", "r2u2_aux_contract_report"))
                        compare_fn(s, f"{op}: operands {t1},{t2}{' with names' if aux else ''}", mk, "r2u2_mltl_update", aux, cst, f"{op}:{t1}:{t2}",
                                   factfn=rd_facts, ignore=(INS + ".opcode", INS + ".op1_type", INS + ".op2_type"))
                    jobs.append((f"{op}:{t1}:{t2}:{aux}", job))
    jobs.sort(key=lambda j: "SUBFORMULA" not in j[0] or j[0][0] not in "UR")
    r.tasks(jobs)


# ------------------------------------------------ queues, booleanizer, engine, specification, signals
def one(r, name, aux=0, key=None, models=None, opaque=(), unroll=0, cst=None, what=None, ignore=(), **k):
    """One job: compare a function with its reference."""
    cst = cst or {}
    w = what or name

    def job(s):
        mk = lambda p: cfront.CInterp(p, models=models or {}, cst=cst, opaque=opaque, unroll=unroll)
        compare_fn(s, w, mk, name, aux, cst, key or name, ignore=tuple(ignore), **k)
    return (w, job)


def p10(r):
    """Queues of every length up to 4 (5 in the thorough tier), every read and write position, any contents; and one step for any length."""
    jobs = []
    for n in range(1, 6 if r.tier == "thorough" else 5):
        for w in range(n):
            c = {CB + ".length": C(n), CB + ".write": C(w)}
            jobs.append(one(r, "r2u2_scq_write", cst=c, what=f"r2u2_scq_write: {n} slots, write index {w}", unroll=n + 1))
            for a in range(n):
                c = {CB + ".length": C(n), CB + ".write": C(w), CB + ".read1": C(a), CB + ".read2": C(a)}
                jobs.append(one(r, "r2u2_scq_read", cst=c, what=f"r2u2_scq_read: {n} slots, write index {w}, read index {a}", unroll=n + 1))
    r.tasks(jobs)


BZI = "r2u2_bz_instruction_t"


def p11(r):
    r.tasks([one(r, "r2u2_bz_update", cst={BZI + ".opcode": C(op)}, what=f"opcode {op}", key=f"opcode {op}") for op in list(range(0, 3)) + list(range(5, 42)) + [200]])


def step_model(tag):
    def m(ip, vals, args, st, fr, e):
        mon = vals[0]
        see = ["bz_program_count", "mltl_program_count"]
        rec = "r2u2_monitor_t"
        obs = []
        for f in see:
            sub = ip.field(mon, rec, f, {"qualType": "program_count_t"})
            obs.append(ip.read(ip.field(sub, "program_count_t", "curr_program_count", {"qualType": "size_t"}), st, {"qualType": "size_t"}))
        prog = ip.field(mon, rec, "progress", {"qualType": "r2u2_monitor_progress_state_t"})
        ts = ip.field(mon, rec, "time_stamp", {"qualType": "uint32_t"})
        obs += [ip.read(prog, st, {"qualType": "unsigned int"}), ip.read(ts, st, {"qualType": "uint32_t"})]
        ip.emit(tag, obs, st, e)
        if tag == "mltl_step":
            old = obs[2]
            ch = apply(lambda s: atom(T("truthy", T("progressed", s))), ip.get(st, "$io"))
            new = apply(lambda t: ite(atom(T("eq", t, C(1))) if t.op != "c" else (TRUE if int(t.args[0]) == 1 else FALSE), ite(ch, const(2), const(1)), leaf(t)), old)
            ip.write_lv(prog, new, st, {"qualType": "unsigned int"})
        return apply(lambda s: leaf(T("res", s)), ip.get(st, "$io"))
    return m


def p12(r):
    mods = {"r2u2_mltl_update": step_model("mltl_step"), "r2u2_bz_update": step_model("bz_step")}
    r.tasks([one(r, n, models=mods, unroll=u, what=f"{n}: up to {u} instructions and passes") for n in ("r2u2_engine_step", "r2u2_step") for u in (1, 2)])


def p13(r):
    jobs = []
    for aux in (0, 1):
        t = " with names" if aux else ""
        if not aux:
            for n in ("r2u2_bz_set_from_binary", "r2u2_mltl_set_from_binary", "r2u2_bz_get_param1_int_from_binary", "r2u2_bz_get_param1_float_from_binary",
                      "r2u2_mltl_configure_instruction_dispatch"):
                jobs.append(one(r, n))
        for u in (1, 2) if not aux or r.tier == "thorough" else (1,):
            jobs.append(one(r, "r2u2_process_binary", aux=aux, unroll=u, what=f"r2u2_process_binary: up to {u} records{t}"))
        jobs.append(one(r, "r2u2_load_specification", aux=aux, unroll=1, what=f"r2u2_load_specification{t}"))
    r.tasks(jobs)


def p14(r):
    r.tasks([one(r, n) for n in ("r2u2_monitor_clock_reset", "r2u2_monitor_soft_reset", "r2u2_monitor_hard_reset")])


def p15(r):
    r.tasks([one(r, "r2u2_aux_formula_report", aux=1)] + [one(r, "r2u2_aux_contract_report", aux=1, unroll=u, what=f"r2u2_aux_contract_report: up to {u} contracts") for u in (1, 2, 3)])


def p16(r):
    jobs = [one(r, n) for n in ("r2u2_load_bool_signal", "r2u2_load_int_signal", "r2u2_load_float_signal", "r2u2_load_string_signal")]
    jobs += [one(r, "r2u2_csv_load_next_signals", unroll=u, what=f"r2u2_csv_load_next_signals: up to {u} columns") for u in (1, 2, 3)]
    r.tasks(jobs)


def static_const(cp, name):
    """The literal value of a constant global, if it has one."""
    g = cp.globals.get(name)
    work = list((g or {}).get("inner", []))
    while work:
        n = work.pop(0)
        if n.get("kind") == "IntegerLiteral":
            return int(n["value"])
        if n.get("kind") in ("ImplicitCastExpr", "ConstantExpr", "ParenExpr", "CStyleCastExpr"):
            work = n.get("inner", []) + work
    return None
