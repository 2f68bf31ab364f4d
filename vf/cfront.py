"""C front end: gated dataflow summaries of C functions from clang's syntax tree.

Memory is split into regions (one per struct field, one per array element type); a region's content
is a store chain over the symbolic initial content, normalised so that the order of independent
stores and overwritten stores do not matter.  Verdict words are (truth bit, time) pairs.
"""
from __future__ import annotations
import json, os, subprocess
from . import dd
from .dd import T, C, leaf, const, br, ite, apply, truth, atom, not_, and_, or_, TRUE, FALSE, NONE, Term, Node
from .pyfront import Interp, St, Unsupported, SEQ0, FLAGS, mk_cat

MSB, LOW = 0x80000000, 0x7FFFFFFF
CFLAGS = ["-std=c99", "-D_POSIX_C_SOURCE=200112L", "-fsyntax-only", "-w"]


# ------------------------------------------------------------------ program
class CProject:
    def __init__(self, srcdir, files=None, defines=(), extra=()):
        self.dir = srcdir
        self.funcs, self.static, self.records, self.typedefs, self.fields, self.enums, self.globals = {}, {}, {}, {}, {}, {}, {}
        self.recname, self.decls, self.errors = {}, {}, []
        self.protos = {}
        if files is None:
            files = []
            for d, _, fs in os.walk(srcdir):
                files += [os.path.join(d, f) for f in fs if f.endswith(".c")]
        self.files = sorted(files)
        procs = []
        incs = sorted({os.path.dirname(f) for f in self.files} | {srcdir})
        for f in self.files:
            cmd = ["clang"] + CFLAGS + ["-D" + d for d in defines] + ["-I" + i for i in incs] + list(extra) + \
                  ["-Xclang", "-ast-dump=json", f]
            procs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        for f, p in procs:
            out, err = p.communicate()
            if p.returncode != 0:
                self.errors.append((f, err.decode()[:400]))
                continue
            self.load(f, json.loads(out))

    def load(self, f, tu):
        for n in tu.get("inner", []):
            k = n.get("kind")
            if k == "RecordDecl":
                self.record(n)
            elif k == "TypedefDecl":
                t = n.get("type", {})
                self.typedefs.setdefault(n["name"], t.get("desugaredQualType") or t.get("qualType"))
                for i in n.get("inner", []):
                    tag = i.get("ownedTagDecl")
                    if tag and tag["id"] in self.records:
                        self.recname[tag["id"]] = n["name"]
                        self.records[n["name"]] = self.records[tag["id"]]
                        self.typedefs.pop(n["name"], None)
            elif k == "EnumDecl":
                v = 0
                for c in n.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        for e in c.get("inner", []):
                            x = self.const_value(e)
                            if x is not None:
                                v = x
                        self.enums[c["name"]] = v
                        v += 1
            elif k == "FunctionDecl":
                if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                    n["$file"] = f
                    self.static[(f, n["name"])] = n
                    self.funcs.setdefault(n["name"], n)
                self.protos.setdefault(n["name"], n)
            elif k == "VarDecl":
                if n.get("init") or n["name"] not in self.globals:
                    self.globals[n["name"]] = n

    def const_value(self, e):
        if "value" in e and e.get("kind") in ("ConstantExpr", "IntegerLiteral"):
            try:
                return int(e["value"])
            except ValueError:
                return None
        for c in e.get("inner", []):
            v = self.const_value(c)
            if v is not None:
                return v
        return None

    def record(self, n):
        if not n.get("completeDefinition"):
            return
        fs = []
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                fs.append((c.get("name"), c["type"]))
                self.fields[c["id"]] = (n["id"], c.get("name"))
        self.records[n["id"]] = {"tag": n.get("tagUsed"), "fields": fs, "id": n["id"]}
        if n.get("name"):
            self.recname[n["id"]] = n["name"]
            self.records[n["name"]] = self.records[n["id"]]
            self.records[n.get("tagUsed", "struct") + " " + n["name"]] = self.records[n["id"]]

    # -------------------------------------------------------------- types
    def canon(self, t):
        """Canonical type string of a clang type object or string."""
        if isinstance(t, dict):
            s = t.get("desugaredQualType") or t["qualType"]
        else:
            s = t
        s = s.replace("const ", "").replace("volatile ", "").replace(" const", "").replace("restrict", "").strip()
        for _ in range(6):
            ptr = ""
            b = s
            while b.endswith("*"):
                b, ptr = b[:-1].strip(), ptr + "*"
            arr = ""
            if b.endswith("]"):
                i = b.index("[")
                b, arr = b[:i].strip(), b[i:]
            u = self.typedefs.get(b)
            if u and u != b:
                s = u + (" " + ptr if ptr else "") + arr
                s = s.replace("const ", "").strip()
            else:
                b = b[7:] if b.startswith("struct ") else b
                s = b + (" " + ptr if ptr else "") + arr
                break
        if s.startswith("_Bool"):
            s = "bool" + s[5:]
        return s

    def rec(self, s):
        s = s if isinstance(s, str) else self.canon(s)
        return self.records.get(s)

    def is_union(self, s):
        r = self.rec(s)
        return bool(r) and r["tag"] == "union"

    def sizeof(self, s):
        s = self.canon(s)
        if s.endswith("*"):
            return 8
        if s.endswith("]"):
            i = s.index("[")
            return self.sizeof(s[:i].strip()) * int(s[i + 1:s.index("]")])
        B = {"char": 1, "unsigned char": 1, "signed char": 1, "bool": 1, "_Bool": 1, "short": 2, "unsigned short": 2, "int": 4,
             "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8}
        if s in B:
            return B[s]
        r = self.rec(s)
        if r:
            off, al = 0, 1
            for _, t in r["fields"]:
                z = self.sizeof(t)
                a = min(z, 8) if not self.rec(self.canon(t)) else 8 if z % 8 == 0 else 4
                a = max(a, 1)
                al = max(al, a)
                if r["tag"] == "union":
                    off = max(off, z)
                else:
                    off = (off + a - 1) // a * a + z
            return (off + al - 1) // al * al
        if s.startswith("enum") or s in self.enums:
            return 4
        raise Unsupported("sizeof " + s)


UNS = {"unsigned int", "unsigned char", "unsigned long", "unsigned short", "unsigned long long", "size_t", "uintptr_t"}
INTS = UNS | {"int", "long", "short", "char", "signed char", "long long"}
BITS = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64,
        "int": 32, "char": 8, "signed char": 8, "short": 16, "long": 64, "long long": 64}
UREGIONS = set()


def _nonneg(t):
    return t.op in dd.NONNEG_OPS or (t.op == "ld" and region_of(t.args[1]) in UREGIONS)


def region_of(loc):
    if loc.op == "F":
        return loc.args[0]
    if loc.op == "E":
        return loc.args[0] + "[]"
    if loc.op == "G":
        return "glob." + loc.args[0]
    return "?"


dd.nonneg = _nonneg
dd.NONNEG_OPS |= {"lo31", "wrap", "cmod", "uval"}


# ------------------------------------------------------------------ words
def lo31_leaf(t):
    if t.op == "c":
        return leaf(C(int(t.args[0]) & LOW))
    if t.op == "vw":
        return leaf(t.args[1])
    k, d = dd.lin_parts(t)
    if any(x.op in ("word", "wrap") for x in d):
        return leaf(T("lo31", t))
    if k >= MSB:
        return leaf(dd.lin_add(t, C(-MSB)))
    return leaf(t)


def msb_leaf(t):
    """Truth bit of a word leaf, as a Node."""
    if t.op == "c":
        return TRUE if int(t.args[0]) & MSB else FALSE
    if t.op == "vw":
        return TRUE if t.args[0] else FALSE
    k, d = dd.lin_parts(t)
    if any(x.op in ("word", "wrap") for x in d):
        return atom(T("truthy", T("msb", t)))
    return TRUE if k >= MSB else FALSE


def vw_leaf(b, t):
    return leaf(T("vw", b, t))


def word_leaf(t):
    """Any integer leaf as a (truth, time) word."""
    if t.op == "vw":
        return leaf(t)
    if t.op in ("undef",):
        return leaf(t)
    if t.op == "c":
        v = int(t.args[0])
        return vw_leaf(1 if v & MSB else 0, C(v & LOW))
    return ite(msb_leaf(t), apply(lambda x: vw_leaf(1, x), lo31_leaf(t)), apply(lambda x: vw_leaf(0, x), lo31_leaf(t)))


def eta(t):
    """An opaque verdict word as (bit, time)."""
    if t.op in ("vw", "undef", "c"):
        return word_leaf(t)
    return br(T("truthy", T("msb", t)), T_leaf("vw", 1, T("lo31", t)), T_leaf("vw", 0, T("lo31", t)))


def T_leaf(*a):
    return leaf(T(*a))


def num(t):
    """Leaf as a number term."""
    if t.op == "vw":
        return dd.lin_add(t.args[1], C(MSB)) if t.args[0] else t.args[1]
    if t.op == "c" and isinstance(t.args[0], bool):
        return C(1 if t.args[0] else 0)
    return t


def numn(n):
    def f(t):
        if t.op in dd.BOOLISH:
            return br(t, const(1), const(0))
        return leaf(num(t))
    return apply(f, n)


# ------------------------------------------------------------------ store chains
def same_root(p):
    i = C(0)
    while p.op == "at":
        i = dd.lin_add(i, p.args[1])
        p = p.args[0]
    return p, i


def mk_at(p, i):
    b, j = same_root(p)
    k = dd.lin_add(j, num(i))
    return b if k is C(0) else T("at", b, k)


def loc_eq(a, b):
    """Node: do two locations of the same region coincide?"""
    if a is b:
        return TRUE
    if a.op != b.op:
        return FALSE
    if a.op == "F":
        return ptr_eq(a.args[1], b.args[1])
    if a.op == "E":
        return and_(ptr_eq(a.args[1], b.args[1]), dd.eq_leaf(num(a.args[2]), num(b.args[2])))
    return FALSE


def ptr_eq(p, q):
    if p is q:
        return TRUE
    a, i = same_root(p)
    b, j = same_root(q)
    if a is b:
        return dd.eq_leaf(i, j)
    # different roots are different objects (assumed: the monitor's memory domains do not overlap)
    return FALSE


def ckey(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = dd.show(t, -30)
    return r


def store_leaf(m, loc, v):
    """Chain m with loc := v (a term)."""
    m = drop(m, loc)
    if v.op == "ld" and v.args[0] is m and v.args[1] is loc:
        return m
    return insert(m, loc, v)


def drop(m, loc):
    if m.op != "st":
        return m
    if m.args[1] is loc:
        return drop(m.args[0], loc)
    p = drop(m.args[0], loc)
    return m if p is m.args[0] else insert(p, m.args[1], m.args[2])


def insert(m, loc, v):
    if m.op == "st" and loc_eq(m.args[1], loc) is FALSE and ckey(loc) < ckey(m.args[1]):
        return T("st", insert(m.args[0], loc, v), m.args[1], m.args[2])
    return T("st", m, loc, v)


def load_leaf(m, loc):
    """Node: content of loc in chain m."""
    if m.op == "cst":
        return leaf(m.args[0]) if m.args[0].op not in dd.BOOLISH else atom(m.args[0])
    if m.op == "st":
        e = loc_eq(m.args[1], loc)
        if e is TRUE:
            return leaf(m.args[2]) if m.args[2].op not in dd.BOOLISH else atom(m.args[2])
        rest = load_leaf(m.args[0], loc)
        return rest if e is FALSE else ite(e, leaf(m.args[2]), rest)
    return leaf(T("ld", m, loc))


dd.REBUILD["st"] = lambda a: leaf(store_leaf(a[0], a[1], a[2]))
dd.REBUILD["ld"] = lambda a: load_leaf(a[0], a[1])
dd.REBUILD["at"] = lambda a: leaf(mk_at(a[0], a[1]))
dd.REBUILD["lo31"] = lambda a: lo31_leaf(a[0])


# ------------------------------------------------------------------ interpreter
class CFrame:
    def __init__(self, ip, fd, scope):
        self.ip, self.fd, self.scope = ip, fd, scope
        self.mod = fd.get("$file", "?") if fd else "?"

    def read_outside(self, name, node):
        d = name if isinstance(name, str) else name[0]
        if d == "$rvs":
            return True
        return not _declares(node, d)


def _declares(node, did):
    if node.get("kind") in ("VarDecl", "ParmVarDecl") and node.get("id") == did:
        return True
    return any(_declares(c, did) for c in node.get("inner", []) if c)


def _refs(node, out=None):
    if out is None:
        out = []
    if node.get("kind") == "DeclRefExpr":
        out.append(node["referencedDecl"]["id"])
    for c in node.get("inner", []):
        if c:
            _refs(c, out)
    return out


def _writes(node, did):
    """Is local variable did assigned, or its address taken, in node?"""
    k = node.get("kind")
    inn = [c for c in node.get("inner", []) if c]
    if k in ("BinaryOperator", "CompoundAssignOperator") and (node.get("opcode") == "=" or k == "CompoundAssignOperator"):
        if did in _refs(inn[0]) and strip(inn[0]).get("kind") == "DeclRefExpr":
            return True
    if k == "UnaryOperator" and node.get("opcode") in ("++", "--", "&") and strip(inn[0]).get("kind") == "DeclRefExpr" and did in _refs(inn[0]):
        return True
    return any(_writes(c, did) for c in inn)


def strip(e):
    while e.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr") and e.get("inner"):
        e = e["inner"][-1] if e["kind"] != "ConstantExpr" else e["inner"][0]
    return e


INTS_BYTES = {"unsigned char", "unsigned short", "unsigned int", "unsigned long", "uint8_t", "uint16_t", "uint32_t", "uint64_t"}
PURE_C = {"pow", "sqrt", "fabs", "abs", "strlen", "strcmp", "strncmp", "strchr", "floor", "ceil", "fmod", "labs"}


class CInterp(Interp):
    def __init__(self, cp, models=None, opaque=(), maxdepth=12, unroll=0, cst=None):
        Interp.__init__(self, None, maxdepth=maxdepth)
        self.cp = cp
        self.models = models or {}
        self.opaque = set(opaque)
        self.facts = []
        self.stack = []
        self.effects_seen = []
        self.unroll = unroll
        self.cst = dict(cst or {})   # regions known to hold one value

    # ------------------------------------------------ cells
    def default(self, k):
        if k[0] == "reg":
            if k[1] in self.cst:
                return leaf(T("cst", self.cst[k[1]]))
            return leaf(T("mem0", k[1]))
        if k == "$trunc":
            return FALSE
        return Interp.default(self, k)

    def loop(self, st, fr, seq, condfn, bodyfn, node):
        if not self.unroll:
            return Interp.loop(self, st, fr, seq, condfn, bodyfn, node)
        done = FALSE
        sb, sc, sr = (self.get(st, k) for k in ("$brk", "$cont", "$ret"))
        for k in FLAGS:
            st.d[k] = FALSE
        iv = T("v", "iteration")

        def head(cur, done):
            s2 = cur.copy()
            c = condfn(s2, iv) if condfn else TRUE
            m = self.merge(done, cur, s2)
            return or_(done, not_(c)), m
        cur = st
        for _ in range(self.unroll):
            done, cur = head(cur, done)
            if done is TRUE:
                break
            s3 = cur.copy()
            bodyfn(s3, iv)
            s3.d["$cont"] = FALSE
            cur = self.merge(done, cur, s3)
            done = or_(done, self.get(cur, "$brk"), self.get(cur, "$ret"))
        else:
            done, cur = head(cur, done)
            cur.d["$trunc"] = or_(self.get(cur, "$trunc"), not_(done))
        st.d = dict(cur.d)
        st.d["$brk"], st.d["$cont"] = sb, sc

    def val(self, n, st, depth=0):
        return n

    def load(self, loc, st, ty):
        """Content of a location term (leaf) of C type ty."""
        if loc.op == "L":
            return self.get(st, loc.args[0])
        r = region_of(loc)
        if r == "?":
            raise Unsupported(f"load through {dd.show(loc)}")
        if self.cp.canon(ty) in UNS or self.cp.canon(ty).startswith("enum"):
            UREGIONS.add(r)
        v = apply(lambda m: load_leaf(m, loc), self.get(st, ("reg", r)))
        if self.verdict(ty):
            v = apply(lambda t: eta(T("word", t)) if t.op == "ld" else eta(t), v)
        return v

    def store(self, loc, v, st, ty):
        if loc.op == "L":
            st.d[loc.args[0]] = v
            return
        r = region_of(loc)
        if r == "?":
            raise Unsupported(f"store through {dd.show(loc)}")
        if self.cp.canon(ty) in UNS:
            UREGIONS.add(r)
        if isinstance(v, Node) and dd.isbool(v) is False:
            v = apply(lambda t: br(t, TRUE, FALSE) if t.op in dd.BOOLISH else leaf(t), v)
        k = ("reg", r)
        st.d[k] = apply(lambda m, x: leaf(store_leaf(m, loc, x)), self.get(st, k), v)

    def verdict(self, ty):
        q = ty["qualType"] if isinstance(ty, dict) else ty
        return "r2u2_verdict" in q and "*" not in q and "(" not in q

    def conv(self, v, ty):
        """Value as stored in an object of type ty."""
        c = self.cp.canon(ty)
        if c in ("bool", "_Bool"):
            return truth(numn(v)) if not dd.isbool(v) else v
        if self.verdict(ty):
            return apply(lambda t: word_leaf(num(t)) if t.op != "vw" else leaf(t), v)
        if c in INTS:
            return apply(lambda t: leaf(num(t)) if t.op != "vw" else leaf(t), v)
        return v

    # ------------------------------------------------ running
    def run(self, name, args=None, st=None, file=None):
        fd = self.cp.static.get((file, name)) if file else self.cp.funcs.get(name)
        if fd is None:
            raise Unsupported(f"function {name} not found")
        st = st or St()
        vals = []
        for i, p in enumerate([c for c in fd.get("inner", []) if c.get("kind") == "ParmVarDecl"]):
            if args and i < len(args) and args[i] is not None:
                vals.append(args[i])
            elif args and p.get("name") in (args if isinstance(args, dict) else ()):
                vals.append(args[p["name"]])
            else:
                vals.append(self.param(i, p))
        rv = self.inline(fd, vals, st)
        return rv, st

    def param(self, i, p):
        t = T("v", f"arg{i}:{p.get('name')}") if False else T("v", f"arg{i}")
        c = self.cp.canon(p["type"])
        if self.verdict(p["type"]):
            return eta(T("word", t))
        if c in ("bool", "_Bool"):
            return atom(T("truthy", t))
        if c in UNS:
            return leaf(T("uval", t))
        if c in ("double", "float"):
            return leaf(T("fval", t))
        return leaf(t)

    def inline(self, fd, vals, st):
        if len(self.stack) > self.maxdepth or fd["name"] in self.stack:
            raise Unsupported("recursion or call depth in " + fd["name"])
        self.stack.append(fd["name"])
        sc = next(self.scope)
        fr = CFrame(self, fd, sc)
        saved = {k: st.d.get(k) for k in FLAGS + ("$rv",)}
        for k in FLAGS:
            st.d[k] = FALSE
        st.d["$rv"] = NONE
        body = None
        ps = []
        for c in fd["inner"]:
            if c["kind"] == "ParmVarDecl":
                ps.append(c)
            elif c["kind"] == "CompoundStmt":
                body = c
        for p, v in zip(ps, vals):
            self.init_local(p, v, st, fr)
        fr.rtype = fd["type"]["qualType"].split("(")[0].strip()
        self.block(body.get("inner", []), st, fr)
        rv = self.get(st, "$rv")
        for k in FLAGS + ("$rv",):
            if saved[k] is None:
                st.d.pop(k, None)
            else:
                st.d[k] = saved[k]
        self.stack.pop()
        return rv

    def init_local(self, p, v, st, fr):
        key = ("l", fr.scope, p["id"])
        r = self.cp.rec(self.cp.canon(p["type"]))
        if r and not self.cp.is_union(self.cp.canon(p["type"])):
            self.copy_struct(leaf(T("L", key)), v, self.cp.canon(p["type"]), st)
        else:
            st.d[key] = self.conv(v, p["type"])

    def copy_struct(self, dst, src, ty, st):
        r = self.cp.rec(ty)
        for f, t in r["fields"]:
            c = self.cp.canon(t)
            d, s = self.field(dst, ty, f, t), self.field(src, ty, f, t)
            if self.cp.rec(c) and not self.cp.is_union(c):
                self.copy_struct(d, s, c, st)
            elif c.endswith("]"):
                raise Unsupported("array member copy")
            else:
                self.assign_loc(d, self.read(s, st, t), st, t)

    # ------------------------------------------------ locations
    def field(self, base, recty, f, fty):
        """Location (or sub-object pointer) of a field of the struct the pointer leaves of base denote."""
        c = self.cp.canon(fty)
        isrec = bool(self.cp.rec(c)) and not self.cp.is_union(c)
        arr = c.endswith("]")

        def g(p):
            if p.op == "L":
                k = p.args[0]
                did = k[2] if isinstance(k[2], tuple) else (k[2],)
                return leaf(T("L", ("l", k[1], did + (f,))))
            if isrec or arr:
                return leaf(T("sub", p, recty + "." + f))
            return leaf(T("F", recty + "." + f, p))
        return apply(g, base)

    def deref(self, p, ty):
        """Location of *p for element type ty (scalar); the pointer itself for structs."""
        c = self.cp.canon(ty)
        if self.cp.rec(c) and not self.cp.is_union(c):
            return p

        def g(t):
            if t.op in ("L", "F", "G", "E"):
                return leaf(t)
            b, i = same_root(t)
            return leaf(T("E", c, b, i))
        return apply(g, p)

    def elem(self, p, i, ty):
        c = self.cp.canon(ty)
        i = numn(i)
        if self.cp.rec(c) and not self.cp.is_union(c):
            return apply(lambda t, x: leaf(mk_at(t, x)), p, i)

        def g(t, x):
            if t.op == "E":
                t = mk_at(t.args[1], t.args[2])
            b, j = same_root(t)
            return leaf(T("E", c, b, dd.lin_add(j, x)))
        return apply(g, p, i)

    def read(self, locs, st, ty):
        if locs.leaf is not None:
            return self.load(locs.leaf, st, ty)
        return self.per_leaf_ro(locs, lambda l: self.load(l, st, ty))

    def per_leaf_ro(self, n, fn):
        acc = None
        for l in dd.leaves(n):
            v = fn(l)
            if acc is None:
                acc = v
            else:
                g = apply(lambda t, l=l: TRUE if t is l else FALSE, n)
                acc = ite(g, v, acc)
        return acc

    def assign_loc(self, locs, v, st, ty):
        v = self.conv(v, ty)
        if locs.leaf is not None:
            self.store(locs.leaf, v, st, ty)
            return v

        def one(l, s2):
            self.store(l, v, s2, ty)
            return NONE
        self.per_leaf(locs, st, one)
        return v

    def addr(self, e, st, fr):
        """Location Node of an lvalue expression."""
        k = e["kind"]
        if k == "ParenExpr":
            return self.addr(e["inner"][0], st, fr)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                key = ("l", fr.scope, d["id"])
                if self.is_global(d):
                    c = self.cp.canon(d["type"])
                    if (self.cp.rec(c) and not self.cp.is_union(c)) or c.endswith("]"):
                        return leaf(T("gobj", d["name"]))
                    return leaf(T("G", d["name"]))
                return leaf(T("L", key))
            raise Unsupported("address of " + d["kind"])
        if k == "MemberExpr":
            b = e["inner"][0]
            rid, f = self.cp.fields.get(e.get("referencedMemberDecl"), (None, e["name"]))
            bt = b["type"]
            base = self.rv(b, st, fr) if e.get("isArrow") else self.addr_or_value(b, st, fr)
            rec = self.cp.canon(bt)
            if e.get("isArrow"):
                rec = rec.rstrip("* ").strip()
            if self.cp.is_union(rec):
                return apply(lambda p: leaf(T("U", p, f)), base)
            return self.field(base, rec, f, e["type"])
        if k == "ArraySubscriptExpr":
            a, i = e["inner"]
            if self.cp.canon(i["type"]).endswith("*"):
                a, i = i, a
            return self.elem(self.rv(a, st, fr), self.rv(i, st, fr), e["type"])
        if k == "UnaryOperator" and e["opcode"] == "*":
            return self.deref(self.rv(e["inner"][0], st, fr), e["type"])
        if k == "UnaryOperator" and e["opcode"] in ("++", "--") and not e.get("isPostfix"):
            self.rv(e, st, fr)
            return self.addr(e["inner"][0], st, fr)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            self.rv(e, st, fr)
            return self.addr(e["inner"][0], st, fr)
        if k == "CompoundLiteralExpr":
            return self.compound(e, st, fr)
        if k == "StringLiteral":
            return leaf(T("str", e["value"]))
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and e.get("castKind") in ("NoOp",):
            return self.addr(e["inner"][0], st, fr)
        raise Unsupported("lvalue " + k)

    def compound(self, e, st, fr):
        key = ("l", fr.scope, e["id"])
        self.init_list(leaf(T("L", key)), e["inner"][0], e["type"], st, fr)
        return leaf(T("L", key))

    def init_list(self, loc, e, ty, st, fr):
        c = self.cp.canon(ty)
        r = self.cp.rec(c)
        if e["kind"] == "InitListExpr" and r and not self.cp.is_union(c):
            for (f, t), x in zip(r["fields"], e.get("inner", [])):
                l = self.field(loc, c, f, t)
                self.init_list(l, x, t, st, fr)
            return
        if e["kind"] == "InitListExpr" and c.endswith("]"):
            return
        if e["kind"] == "InitListExpr" and e.get("inner"):
            return self.init_list(loc, e["inner"][0], ty, st, fr)
        if e["kind"] == "ImplicitValueInitExpr":
            return
        if r and not self.cp.is_union(c):
            self.copy_struct(loc, self.rv(e, st, fr), c, st)
            return
        self.assign_loc(loc, self.rv(e, st, fr), st, ty)

    def is_global(self, d):
        return d["name"] in self.cp.globals and self.cp.globals[d["name"]] is not None and not self.local_decl(d)

    def local_decl(self, d):
        return d["id"] in self.locals_

    @property
    def locals_(self):
        if not hasattr(self, "_locals"):
            self._locals = set()
            for fd in self.cp.static.values():
                self._collect(fd)
        return self._locals

    def _collect(self, n):
        if n.get("kind") in ("VarDecl", "ParmVarDecl"):
            self._locals.add(n["id"])
        for c in n.get("inner", []):
            if c:
                self._collect(c)

    def addr_or_value(self, e, st, fr):
        if e.get("valueCategory") == "lvalue":
            return self.addr(e, st, fr)
        return self.rv(e, st, fr)

    # unions: one cell, tagged with the member last written
    def u_read(self, p, f, st, ty):
        def g(t):
            if t.op == "pun" and t.args[0] == f:
                return leaf(t.args[1])
            return leaf(T("unpun", f, t))
        v = self.load(self.uloc(p), st, "union")
        return apply(g, v)

    def uloc(self, p):
        return p

    # ------------------------------------------------ statements
    def stmt(self, s, st, fr):
        k = s["kind"]
        m = getattr(self, "c_" + k, None)
        if m:
            return m(s, st, fr)
        if k in self.EXPRS:
            self.rv(s, st, fr, void=True)
            return
        raise Unsupported("statement " + k)

    EXPRS = {"BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CallExpr", "ParenExpr", "ImplicitCastExpr",
             "CStyleCastExpr", "ConditionalOperator", "DeclRefExpr", "MemberExpr", "IntegerLiteral", "ArraySubscriptExpr"}

    def block(self, body, st, fr):
        Interp.block(self, [b for b in body if b], st, fr)

    def c_CompoundStmt(self, s, st, fr):
        self.block(s.get("inner", []), st, fr)

    def c_NullStmt(self, s, st, fr):
        pass

    def c_DeclStmt(self, s, st, fr):
        for d in s.get("inner", []):
            if d["kind"] != "VarDecl" or d.get("storageClass") == "extern":
                continue
            key = ("l", fr.scope, d["id"])
            if "init" in d:
                e = d["inner"][-1]
                self.init_list(leaf(T("L", key)), e, d["type"], st, fr)
            else:
                for k in [k for k in st.d if k[0] == "l" and k[1] == fr.scope and (k[2] == d["id"] or isinstance(k[2], tuple) and k[2][0] == d["id"])]:
                    del st.d[k]
                st.d[key] = leaf(T("undef", "local"))

    def cond(self, e, st, fr):
        return truth(numn(self.rv(e, st, fr)))

    def c_IfStmt(self, s, st, fr):
        inn = s["inner"]
        c = self.cond(inn[0], st, fr)
        if c is TRUE:
            return self.stmt(inn[1], st, fr)
        if c is FALSE:
            if len(inn) > 2:
                self.stmt(inn[2], st, fr)
            return
        a, b = st.copy(), st.copy()
        self.block([inn[1]], a, fr)
        if len(inn) > 2:
            self.block([inn[2]], b, fr)
        st.d = self.merge(c, a, b).d

    def c_ReturnStmt(self, s, st, fr):
        inn = s.get("inner", [])
        if inn:
            c = self.cp.canon(inn[0]["type"])
            v = self.rv(inn[0], st, fr)
            if self.cp.rec(c) and not self.cp.is_union(c):
                key = ("l", fr.scope, ("$rvs",))
                self.copy_struct(leaf(T("L", key)), v, c, st)
                v = leaf(T("L", key))
            else:
                v = self.conv(v, inn[0]["type"])
        else:
            v = NONE
        st.d["$rv"] = v
        st.d["$ret"] = TRUE

    def c_BreakStmt(self, s, st, fr):
        st.d["$brk"] = TRUE

    def c_ContinueStmt(self, s, st, fr):
        st.d["$cont"] = TRUE

    def c_SwitchStmt(self, s, st, fr):
        subj = numn(self.rv(s["inner"][0], st, fr))
        body = s["inner"][-1]
        items = []     # (labels or None, stmt)

        def flat(x):
            labels = []
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    if len(x["inner"]) > 2:
                        raise Unsupported("case range")
                    v = self.cp.const_value(x["inner"][0])
                    if v is None:
                        v = self.rv(x["inner"][0], st, fr).leaf.args[0]
                    labels.append(v)
                else:
                    labels.append("default")
                x = x["inner"][-1]
            items.append((labels, x))
        for x in body.get("inner", []):
            flat(x)
        alllab = [l for ls, _ in items for l in ls if l != "default"]
        eq = {l: apply(lambda t, l=l: dd.eq_leaf(t, C(l)), subj) for l in alllab}
        dflt = not_(or_(*eq.values()))
        saved_brk = self.get(st, "$brk")
        st.d["$brk"] = FALSE
        active = FALSE
        for ls, x in items:
            for l in ls:
                active = or_(active, dflt if l == "default" else eq[l])
            live = and_(active, not_(or_(*[self.get(st, k) for k in FLAGS])))
            if live is FALSE:
                continue
            s2 = st.copy()
            for k in FLAGS:
                s2.d[k] = FALSE
            self.stmt(x, s2, fr)
            st.d = self.merge(live, s2, st).d
        st.d["$brk"] = saved_brk

    def c_WhileStmt(self, s, st, fr):
        c, b = s["inner"][-2], s["inner"][-1]
        self.loop(st, fr, None, lambda s2, i: self.cond(c, s2, fr), lambda s2, i: self.block([b], s2, fr), s)

    def c_DoStmt(self, s, st, fr):
        b, c = s["inner"][0], s["inner"][1]
        if strip(c).get("kind") in ("IntegerLiteral", "CXXBoolLiteralExpr") and str(strip(c).get("value")) in ("0", "False", "false"):
            # do { } while (0)
            sb, sc = self.get(st, "$brk"), self.get(st, "$cont")
            self.block([b], st, fr)
            st.d["$brk"], st.d["$cont"] = sb, sc
            return

        def body(s2, i):
            self.block([b], s2, fr)
            s2.d["$cont"] = FALSE
            live = not_(or_(self.get(s2, "$brk"), self.get(s2, "$ret")))
            s3 = s2.copy()
            cc = self.cond(c, s3, fr)
            s3.d["$brk"] = not_(cc)
            s2.d = self.merge(live, s3, s2).d
        self.loop(st, fr, None, None, body, s)

    def c_ForStmt(self, s, st, fr):
        init, _, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
        if init:
            self.stmt(init, st, fr)
        if self.counted(s, init, cond, inc, body, st, fr):
            return

        def b(s2, i):
            self.block([body], s2, fr)
            s2.d["$cont"] = FALSE
            if inc:
                live = not_(or_(self.get(s2, "$brk"), self.get(s2, "$ret")))
                s3 = s2.copy()
                self.rv(inc, s3, fr, void=True)
                s2.d = self.merge(live, s3, s2).d
        self.loop(st, fr, None, (lambda s2, i: self.cond(cond, s2, fr)) if cond else None, b, s)

    def counted(self, s, init, cond, inc, body, st, fr):
        """for (i = a; i < n; i++) with i and n untouched by the body."""
        if self.unroll:
            return False
        ce, ie = strip(cond) if cond else {}, strip(inc) if inc else {}
        if ce.get("kind") != "BinaryOperator" or ce.get("opcode") not in ("<", "<=", ">", "!="):
            return False
        l, r = ce["inner"]
        if ce["opcode"] == ">":
            l, r = r, l
        l0 = strip(l)
        if l0.get("kind") != "DeclRefExpr":
            return False
        d = l0["referencedDecl"]
        if self.is_global(d):
            return False
        did = d["id"]
        ok = False
        if ie.get("kind") == "UnaryOperator" and ie["opcode"] == "++":
            ok = strip(ie["inner"][0]).get("referencedDecl", {}).get("id") == did
        if ie.get("kind") == "CompoundAssignOperator" and ie["opcode"] == "+=":
            v = strip(ie["inner"][1])
            ok = strip(ie["inner"][0]).get("referencedDecl", {}).get("id") == did and v.get("value") == "1"
        if not ok or _writes(body, did):
            return False
        key = ("l", fr.scope, did)
        a = numn(self.get(st, key))
        n = numn(self.rv(r, st.copy(), fr))
        if a.leaf is None or n.leaf is None:
            return False
        if ce["opcode"] == "<=":
            n = leaf(dd.lin_add(n.leaf, C(1)))
        # the bound must not change in the body: one trial iteration with the memory it touches
        trial = st.copy()
        trial.d[key] = leaf(T("uval", T("trial", did)))
        for k in FLAGS:
            trial.d[k] = FALSE
        self.stmt(body, trial, fr)
        for k in FLAGS:
            trial.d[k] = FALSE
        try:
            n2 = numn(self.rv(r, trial, fr))
        except Unsupported:
            return False
        if ce["opcode"] == "<=":
            n2 = apply(lambda t: leaf(dd.lin_add(t, C(1))), n2)
        if n2 is not n:
            return False
        cnt = dd.lin_add(n.leaf, a.leaf, -1)
        seq = T("call", "range", cnt)

        def b(s2, i):
            s2.d[key] = leaf(dd.lin_add(a.leaf, i))
            self.block([body], s2, fr)
            s2.d[key] = leaf(dd.lin_add(a.leaf, i))
        saved = st.d.get(key)
        nl = len(self.loops)
        # i itself is not carried
        st.d[key] = leaf(T("undef", "counter"))
        self.loop(st, fr, seq, None, b, s)
        if _declares(s, did):
            st.d.pop(key, None)
        else:
            st.d[key] = leaf(T("exitidx", n.leaf)) if self.loops[nl:] and self.loops[-1].exit is not FALSE else n
        return True

    # ------------------------------------------------ expressions
    def rv(self, e, st, fr, void=False):
        k = e["kind"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(e, st, fr)

    def x_ParenExpr(self, e, st, fr):
        return self.rv(e["inner"][0], st, fr)

    def x_ConstantExpr(self, e, st, fr):
        if "value" in e:
            return const(int(e["value"]))
        return self.rv(e["inner"][0], st, fr)

    def x_IntegerLiteral(self, e, st, fr):
        return const(int(e["value"]))

    def x_CharacterLiteral(self, e, st, fr):
        return const(int(e["value"]))

    def x_FloatingLiteral(self, e, st, fr):
        return const(float(e["value"]))

    def x_StringLiteral(self, e, st, fr):
        return leaf(T("str", e["value"]))

    def x_CXXBoolLiteralExpr(self, e, st, fr):
        return TRUE if e["value"] else FALSE

    def x_ImplicitValueInitExpr(self, e, st, fr):
        return const(0)

    def x_InitListExpr(self, e, st, fr):
        if len(e.get("inner", [])) == 1:
            return self.rv(e["inner"][0], st, fr)
        raise Unsupported("initialiser list value")

    def x_CompoundLiteralExpr(self, e, st, fr):
        return self.compound(e, st, fr)

    def x_UnaryExprOrTypeTraitExpr(self, e, st, fr):
        if e.get("name") != "sizeof":
            raise Unsupported("trait")
        t = e.get("argType") or strip_paren(e["inner"][0])["type"]
        try:
            return const(self.cp.sizeof(t))
        except (Unsupported, KeyError):
            return leaf(T("sizeof", self.cp.canon(t)))

    def x_DeclRefExpr(self, e, st, fr):
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return const(self.cp.enums[d["name"]])
        if d["kind"] == "FunctionDecl":
            return leaf(T("g", d["name"]))
        return self.addr(e, st, fr)

    def x_MemberExpr(self, e, st, fr):
        return self.addr(e, st, fr)

    x_ArraySubscriptExpr = x_MemberExpr

    def read_lv(self, loc, st, ty):
        """Read through location terms, including union members."""
        def one(l):
            if l.op == "U":
                return self.u_read(l.args[0], l.args[1], st, ty)
            return self.load(l, st, ty)
        if loc.leaf is not None:
            return one(loc.leaf)
        return self.per_leaf_ro(loc, one)

    def write_lv(self, loc, v, st, ty):
        v = self.conv(v, ty)

        def one(l, s2):
            if l.op == "U":
                x = apply(lambda t: leaf(T("pun", l.args[1], num(t))), numn(v))
                self.store(l.args[0], x, s2, "union")
            else:
                self.store(l, v, s2, ty)
            return NONE
        if loc.leaf is not None:
            one(loc.leaf, st)
        else:
            self.per_leaf(loc, st, one)
        return v

    def x_ImplicitCastExpr(self, e, st, fr):
        ck = e["castKind"]
        s = e["inner"][0]
        if ck == "LValueToRValue":
            g = self.global_const(s)
            if g is not None:
                return g
            loc = self.addr(s, st, fr)
            c = self.cp.canon(e["type"])
            if self.cp.rec(c) and not self.cp.is_union(c):
                return loc
            return self.read_lv(loc, st, s["type"])
        if ck == "ArrayToPointerDecay":
            if s["kind"] == "StringLiteral":
                return leaf(T("str", s["value"]))
            return self.addr(s, st, fr)
        if ck == "FunctionToPointerDecay":
            return self.rv(s, st, fr)
        if ck == "NullToPointer":
            return const(0)
        v = self.rv(s, st, fr)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth_of(v)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.icast(v, self.cp.canon(e["type"]), self.cp.canon(s["type"]))
        if ck == "IntegralToFloating":
            return apply(lambda t: const(float(t.args[0])) if t.op == "c" else leaf(T("i2f", num(t))), v)
        if ck == "FloatingToIntegral":
            return apply(lambda t: leaf(T("f2i", self.cp.canon(e["type"]), t)), v)
        if ck in ("NoOp", "BitCast", "FloatingCast", "ToVoid", "PointerToIntegral", "IntegralToPointer"):
            return v
        raise Unsupported("cast " + ck)

    x_CStyleCastExpr = x_ImplicitCastExpr

    def truth_of(self, v):
        def f(t):
            if t.op == "vw":
                return TRUE if t.args[0] else not_(dd.eq_leaf(t.args[1], C(0)))
            if t.op in ("at", "sub", "str", "L", "E", "F", "G", "gobj", "g"):
                return TRUE
            if t.op == "c":
                return TRUE if t.args[0] else FALSE
            if t.op == "lin":
                return not_(dd.eq_leaf(t, C(0)))
            if t.op in dd.BOOLISH:
                return atom(t)
            if t.op in ("ld", "word", "uval") or True:
                # one spelling for x != 0 and x used as a condition
                return not_(atom(T("eq", t, C(0)))) if not self.boolish_ld(t) else atom(T("truthy", t))
        return apply(f, v)

    def boolish_ld(self, t):
        return t.op == "ld" and self.region_bool(region_of(t.args[1]))

    def region_bool(self, r):
        return r in self.bool_regions or r in ("bool[]", "_Bool[]")

    @property
    def bool_regions(self):
        if not hasattr(self, "_br"):
            self._br = set()
            for name, r in self.cp.records.items():
                for f, t in r["fields"]:
                    if self.cp.canon(t) in ("bool", "_Bool"):
                        self._br.add(f"{name}.{f}")
        return self._br

    def cond(self, e, st, fr):
        return self.truth_of(self.rv(e, st, fr))

    def icast(self, v, to, frm):
        if to in ("bool", "_Bool"):
            return self.truth_of(v)
        w = BITS.get(to, 32)

        def f(t):
            if t.op == "c":
                x = int(t.args[0])
                x &= (1 << w) - 1
                if to not in UNS and x >= 1 << (w - 1):
                    x -= 1 << w
                return const(x)
            if t.op == "vw" or t.op in dd.BOOLISH or w > BITS.get(frm, 32):
                return leaf(t)
            if w < 32 and to not in UNS and (w < BITS.get(frm, 32) or frm in UNS):
                return leaf(T("strunc", w, num(t)))
            if w >= BITS.get(frm, 32) and not (w < 32 and to in UNS and frm not in UNS):
                return leaf(t)
            if t.op == "ld" and region_of(t.args[1]) in UREGIONS and region_of(t.args[1]).startswith("unsigned char"):
                return leaf(t)
            if w <= BITS.get(frm, 32) and w < 32:
                return leaf(T("trunc", w, num(t)))
            return leaf(t)
        return apply(f, v)

    def global_const(self, e):
        e = strip_paren(e)
        if e["kind"] != "DeclRefExpr":
            return None
        d = e["referencedDecl"]
        if d["kind"] != "VarDecl" or not self.is_global(d):
            return None
        g = self.cp.globals[d["name"]]
        q = g["type"]["qualType"]
        if "init" not in g or not (q.startswith("const ") or q.endswith("const")):
            return None
        v = self.rv(g["inner"][-1], St(), CFrame(self, None, 0))
        v = self.icast(v, self.cp.canon(g["type"]), "long")
        return v

    def x_ConditionalOperator(self, e, st, fr):
        c, a, b = e["inner"]
        cv = self.cond(c, st, fr)
        if cv is TRUE:
            return self.rv(a, st, fr)
        if cv is FALSE:
            return self.rv(b, st, fr)
        s1, s2 = st.copy(), st.copy()
        va, vb = self.rv(a, s1, fr), self.rv(b, s2, fr)
        st.d = self.merge(cv, s1, s2).d
        return ite(cv, va, vb)

    def x_UnaryOperator(self, e, st, fr):
        op, s = e["opcode"], e["inner"][0]
        if op == "&":
            loc = self.addr(s, st, fr)

            def f(t):
                if t.op == "E":
                    return leaf(mk_at(t.args[1], t.args[2]))
                return leaf(t)
            return apply(f, loc)
        if op == "*":
            return self.addr(e, st, fr)
        if op == "__extension__" or op == "+":
            return self.rv(s, st, fr)
        if op == "!":
            return not_(self.cond(s, st, fr))
        if op in ("++", "--"):
            loc = self.addr(s, st, fr)
            old = self.read_lv(loc, st, s["type"])
            new = self.arith("+" if op == "++" else "-", old, const(1), e["type"])
            new = self.write_lv(loc, new, st, s["type"])
            return old if e.get("isPostfix") else new
        v = self.rv(s, st, fr)
        c = self.cp.canon(e["type"])
        if op == "-":
            if c in ("double", "float"):
                return apply(lambda t: const(-t.args[0]) if t.op == "c" else leaf(T("fneg", t)), v)
            return self.icast(apply(lambda t: leaf(dd.lin_scale(num(t), -1)), numn(v)), c, c)
        if op == "~":
            return self.icast(apply(lambda t: const(~int(t.args[0])) if t.op == "c" else leaf(T("bnot", t)), numn(v)), c, c)
        raise Unsupported("unary " + op)

    def x_CompoundAssignOperator(self, e, st, fr):
        l, r = e["inner"]
        op = e["opcode"][:-1]
        rvv = self.rv(r, st, fr)
        loc = self.addr(l, st, fr)
        old = self.read_lv(loc, st, l["type"])
        new = self.binop_c(op, old, rvv, l["type"], l["type"], r["type"])
        return self.write_lv(loc, new, st, l["type"])

    def x_BinaryOperator(self, e, st, fr):
        op = e["opcode"]
        l, r = e["inner"]
        if op == "=":
            c = self.cp.canon(l["type"])
            if self.cp.rec(c) and not self.cp.is_union(c):
                src = self.rv(r, st, fr)
                dst = self.addr(l, st, fr)
                self.copy_struct(dst, src, c, st)
                return dst
            v = self.rv(r, st, fr)
            loc = self.addr(l, st, fr)
            return self.write_lv(loc, v, st, l["type"])
        if op == ",":
            self.rv(l, st, fr)
            return self.rv(r, st, fr)
        if op in ("&&", "||"):
            a = self.cond(l, st, fr)
            if op == "&&":
                if a is FALSE:
                    return FALSE
                s2 = st.copy()
                b = self.cond(r, s2, fr)
                st.d = self.merge(a, s2, st).d if a is not TRUE else s2.d
                return and_(a, b)
            if a is TRUE:
                return TRUE
            s2 = st.copy()
            b = self.cond(r, s2, fr)
            st.d = self.merge(a, st, s2).d if a is not FALSE else s2.d
            return or_(a, b)
        a = self.rv(l, st, fr)
        b = self.rv(r, st, fr)
        return self.binop_c(op, a, b, e["type"], l["type"], r["type"])

    def binop_c(self, op, a, b, ty, lt, rt):
        lc, rc = self.cp.canon(lt), self.cp.canon(rt)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare_c(op, a, b, lc, rc)
        if lc.endswith("*") or rc.endswith("*") or lc.endswith("]"):
            if op == "+":
                if rc.endswith("*"):
                    a, b = b, a
                return self.ptr_add(a, b, 1)
            if op == "-" and not rc.endswith("*"):
                return self.ptr_add(a, b, -1)
            if op == "-":
                return apply(lambda x, y: leaf(T("pdiff", x, y)), a, b)
            raise Unsupported("pointer " + op)
        return self.arith(op, a, b, ty)

    def ptr_add(self, p, i, s):
        i = numn(i)

        def f(t, k):
            if t.op == "E":
                t = mk_at(t.args[1], t.args[2])
            return leaf(mk_at(t, dd.lin_scale(k, s)))
        return apply(f, p, i)

    def compare_c(self, op, a, b, lc, rc):
        if lc in ("double", "float") or rc in ("double", "float"):
            def f(x, y):
                if x.op == "c" and y.op == "c":
                    import operator as o
                    return const({"==": o.eq, "!=": o.ne, "<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}[op](x.args[0], y.args[0]))
                if op in (">", ">="):
                    x, y = y, x
                if op in ("<", ">"):
                    return atom(T("b", "flt", x, y))
                if op in ("<=", ">="):
                    return atom(T("b", "fle", x, y))
                x, y = sorted((x, y), key=ckey)
                r = atom(T("b", "feq", x, y))
                return r if op == "==" else not_(r)
            return apply(f, a, b)
        if lc.endswith("*") or rc.endswith("*"):
            def g(x, y):
                if x.op == "c" and y.op != "c":
                    x, y = y, x
                if y.op == "c" and x.op in ("at", "sub", "L", "F", "E", "G", "gobj", "str", "g"):
                    r = FALSE
                elif y.op == "c":
                    r = dd.eq_leaf(x, y) if x.op == "c" else atom(T("eq", x, C(0)))
                else:
                    r = ptr_eq(x, y) if op in ("==", "!=") else atom(T("b", "plt", x, y))
                if op == "!=":
                    return not_(r)
                if op == "==":
                    return r
                raise Unsupported("pointer order")
            return apply(g, a, b)

        def h(x, y):
            if op in ("==", "!="):
                if x.op == "vw" or y.op == "vw":
                    if x.op != "vw":
                        x, y = y, x
                    if y.op == "vw":
                        r = dd.eq_leaf(x.args[1], y.args[1]) if x.args[0] == y.args[0] else FALSE
                    elif y.op == "c":
                        w = int(y.args[0]) & 0xFFFFFFFF
                        r = dd.eq_leaf(x.args[1], C(w & LOW)) if x.args[0] == w >> 31 else FALSE
                    else:
                        r = and_(dd.eq_leaf(x.args[1], y), FALSE if x.args[0] else TRUE)
                else:
                    r = dd.eq_leaf(num(x), num(y))
                    if r.leaf is None and r.atom.op == "eq" and r.atom.args[1] is C(0) and self.boolish_ld(r.atom.args[0]) and r.hi is TRUE:
                        r = not_(atom(T("truthy", r.atom.args[0])))
                return r if op == "==" else not_(r)
            x, y = num(x), num(y)
            if op == "<":
                return dd.lt_leaf(x, y)
            if op == ">":
                return dd.lt_leaf(y, x)
            if op == "<=":
                return dd.le_leaf(x, y)
            return dd.le_leaf(y, x)
        # a comparison with zero of something unsigned
        def z(x, y):
            r = h(x, y)
            return self.norm0(r)
        bl = lambda n: numn(n) if any(t.op in dd.BOOLISH or (t.op == "c" and isinstance(t.args[0], bool)) for t in dd.leaves(n)) else n
        return apply(z, bl(a), bl(b))

    def norm0(self, r):
        """x <= 0 for an unsigned x is x == 0."""
        if r.leaf is None and r.atom.op == "le0":
            l = r.atom.args[0]
            k, d = dd.lin_parts(l)
            if len(d) == 1:
                (t, c), = d.items()
                if _nonneg(t) and c == 1 and k == 0:
                    e = atom(T("eq", t, C(0)))
                    return ite(e, r.hi, r.lo)
                if _nonneg(t) and c == 1 and k > 0:
                    return r.lo
                if _nonneg(t) and c == -1 and k <= 0:
                    return r.hi
                if _nonneg(t) and c == -1 and k == 1:
                    return ite(atom(T("eq", t, C(0))), r.lo, r.hi)
        return r

    def arith(self, op, a, b, ty):
        c = self.cp.canon(ty)
        if c in ("double", "float"):
            def f(x, y):
                if x.op == "c" and y.op == "c" and op in "+-*":
                    v = {"+": x.args[0] + y.args[0], "-": x.args[0] - y.args[0], "*": x.args[0] * y.args[0]}[op]
                    return const(float(v))
                if op in "+*":
                    x, y = sorted((x, y), key=ckey)
                return leaf(T("f" + op, x, y))
            return apply(f, a, b)
        uns = c in UNS
        w = BITS.get(c, 32)

        def g(x, y):
            if op in ("&", "|", "^"):
                return self.bitop(op, x, y)
            x, y = num(x), num(y)
            if op == "+":
                return leaf(fold(dd.lin_add(x, y), uns, w))
            if op == "-":
                r = dd.lin_add(x, y, -1)
                if r.op == "c":
                    return leaf(fold(r, uns, w))
                if not uns:
                    return leaf(r)
                k, d = dd.lin_parts(r)
                if k >= 0 and all(v > 0 and _nonneg(t) for t, v in d.items()):
                    return leaf(r)
                cond = self.norm0(dd.lt_leaf(x, y))
                return ite(cond, leaf(T("wrap", r)), leaf(r))
            if op == "*":
                return dd.mul_leaf(x, y)
            if op in ("/", "%"):
                if x.op == "c" and y.op == "c" and y.args[0]:
                    q = abs(int(x.args[0])) // abs(int(y.args[0]))
                    q = q if (x.args[0] < 0) == (y.args[0] < 0) else -q
                    return const(q if op == "/" else int(x.args[0]) - q * int(y.args[0]))
                if op == "%" and uns:
                    ov = dd.lin_add(x, y, -1)
                    return ite(dd.lt_leaf(x, y), leaf(x), ite(dd.lt_leaf(ov, y), leaf(ov), leaf(T("cmod", x, y))))
                return leaf(T("cdiv" if op == "/" else "smod", x, y))
            if op == "<<" and y.op == "c":
                return leaf(fold(dd.lin_scale(x, 1 << int(y.args[0])), uns, w))
            if op == ">>" and y.op == "c":
                if x.op == "c":
                    return const(int(x.args[0]) >> int(y.args[0]))
                return leaf(T("shr", x, y))
            return leaf(T("op" + op, x, y))
        bl = lambda n: numn(n) if any(t.op in dd.BOOLISH or (t.op == "c" and isinstance(t.args[0], bool)) for t in dd.leaves(n)) else n
        return apply(g, bl(a), bl(b))

    def bitop(self, op, x, y):
        if x.op == "c" and not y.op == "c":
            x, y = y, x
        if x.op == "c" and y.op == "c":
            p, q = int(x.args[0]), int(y.args[0])
            return const(p & q if op == "&" else p | q if op == "|" else p ^ q)
        if y.op == "c":
            m = int(y.args[0]) & 0xFFFFFFFF
            if op == "&" and m == LOW:
                return lo31_leaf(x)
            if op == "&" and m == MSB:
                return ite(msb_leaf(x), const(MSB), const(0))
            if op == "|" and m == MSB:
                return apply(lambda t: vw_leaf(1, t), lo31_leaf(x))
            if op == "^" and m == MSB:
                return ite(msb_leaf(x), apply(lambda t: vw_leaf(0, t), lo31_leaf(x)), apply(lambda t: vw_leaf(1, t), lo31_leaf(x)))
            if op == "|" and m == 0 or op == "^" and m == 0:
                return leaf(x)
            if op == "&" and m == 0:
                return const(0)
        if op == "|" and disjoint_bits(num(x), num(y)):
            return leaf(dd.lin_add(num(x), num(y)))
        x, y = sorted((num(x), num(y)), key=ckey)
        return leaf(T({"&": "band", "|": "bor", "^": "bxor"}[op], x, y))

    # ------------------------------------------------ calls
    def x_CallExpr(self, e, st, fr):
        callee, args = e["inner"][0], e["inner"][1:]
        f = strip(callee)
        if f["kind"] == "DeclRefExpr" and f["referencedDecl"]["kind"] == "FunctionDecl":
            name = f["referencedDecl"]["name"]
            if name == "__builtin_expect":
                return self.rv(args[0], st, fr)
            vals = [self.rv(a, st, fr) for a in args]
            if name in self.models:
                return self.models[name](self, vals, args, st, fr, e)
            fd = self.cp.static.get((fr.mod, name)) or self.cp.funcs.get(name)
            if fd is not None and name not in self.opaque:
                return self.inline(fd, vals, st)
            return self.ext(name, vals, args, st, fr, e)
        cv = self.rv(callee, st, fr)
        vals = [self.rv(a, st, fr) for a in args]
        return self.emit("icall", [cv] + [self.arg_value(v, a, st) for v, a in zip(vals, args)], st, e)

    def arg_value(self, v, a, st):
        """What an external function can see of an argument."""
        c = self.cp.canon(a["type"])
        if self.cp.rec(c) and not self.cp.is_union(c):
            return self.struct_value(v, c, st)

        def f(t):
            if t.op == "L":
                ty = c[:-1].strip() if c.endswith("*") else c
                if self.cp.rec(ty):
                    return apply(lambda x: leaf(T("ref", x)), self.struct_value(leaf(t), ty, st))
                return apply(lambda x: leaf(T("ref", x)), self.get(st, t.args[0]))
            return leaf(t)
        return apply(f, v)

    def struct_value(self, p, ty, st):
        fs = []
        for f, t in self.cp.rec(ty)["fields"]:
            c = self.cp.canon(t)
            l = self.field(p, ty, f, t)
            fs.append(self.struct_value(l, c, st) if self.cp.rec(c) and not self.cp.is_union(c) else self.read(l, st, t))
        return apply(lambda *xs: leaf(T("struct", ty, *xs)), *fs)

    def emit(self, name, vals, st, e, result=True):
        io = self.get(st, "$io")

        def f(s, *ls):
            ev = T("eff", name, *ls)
            self.where.setdefault(ev, name)
            return leaf(T("seq", s, ev))
        new = apply(f, io, *vals)
        st.d["$io"] = new
        if not result:
            return NONE
        return apply(lambda s: leaf(T("res", s)), new)

    def ext(self, name, vals, args, st, fr, e):
        if name in ("fprintf", "printf", "dprintf"):
            file = vals[0] if name != "printf" else leaf(T("G", "stdout"))
            fmt = vals[1 if name != "printf" else 0]
            rest = list(zip(vals, args))[2 if name != "printf" else 1:]
            return self.printf(file, fmt, [self.arg_value(v, a, st) if self.cp.canon(a["type"]).endswith("*") is False else v for v, a in rest], st, e)
        if name in ("fputs", "fputc", "putc"):
            file = vals[1]
            txt = vals[0]
            if name != "fputs":
                txt = apply(lambda t: leaf(T("chr", t)) if t.op != "c" else leaf(T("str", json.dumps(chr(int(t.args[0]))))), txt)
            return self.out(file, [apply(lambda t: leaf(C(cstr(t))) if t.op == "str" else leaf(T("conv", "s", t)), txt)], st, e)
        if name in PURE_C:
            return apply(lambda *xs: leaf(T("pure", name, *xs)), *vals)
        if name == "memcpy":
            return self.memcpy(vals, args, st, fr, e)
        outs = []
        av = [self.arg_value(v, a, st) for v, a in zip(vals, args)]
        if name in ("sscanf", "fscanf"):
            av = [vals[0], vals[1]]
        if name == "memset":
            return self.memset(vals, args, st, e)
        r = self.emit(name, av, st, e)
        if name in ("sscanf", "fscanf"):
            # the converted values are stored through the remaining arguments
            for i, (v, a) in enumerate(zip(vals[2:], args[2:])):
                ety = deref_type(strip_casts(a)["type"], self)
                loc = self.deref(v, ety) if not any(t.op == "U" for t in dd.leaves(v)) else v
                if self.cp.canon(ety) == "char":
                    x = apply(lambda s, i=i: leaf(T("scan", i, s)), self.get(st, "$io"))
                else:
                    x = apply(lambda s, i=i: leaf(T("scan", i, s)), self.get(st, "$io"))
                self.write_lv(loc, x, st, ety)
        else:
            # pointers to locals may be written by the external function
            for i, (v, a) in enumerate(zip(vals, args)):
                for t in dd.leaves(v):
                    if t.op == "L" and self.cp.canon(a["type"]).endswith("*"):
                        x = apply(lambda s, i=i: leaf(T("out", i, s)), self.get(st, "$io"))
                        for k in list(st.d):
                            if k == t.args[0]:
                                st.d[k] = x
        return r

    def memcpy(self, vals, args, st, fr, e):
        d, s = strip_casts(args[0]), strip_casts(args[1])
        if d["kind"] == "UnaryOperator" and s["kind"] == "UnaryOperator" and d["opcode"] == "&" and s["opcode"] == "&":
            dt, stt = d["inner"][0]["type"], s["inner"][0]["type"]
            src = self.read_lv(self.addr(s["inner"][0], st, fr), st, stt)
            a, b = self.cp.canon(dt), self.cp.canon(stt)
            v = src if a == b else apply(lambda t: leaf(T("bits", a, num(t))), src)
            self.write_lv(self.addr(d["inner"][0], st, fr), v, st, dt)
            return NONE
        n = vals[2].leaf.args[0] if vals[2].leaf is not None and vals[2].leaf.op == "c" else None
        if d["kind"] == "UnaryOperator" and d["opcode"] == "&" and isinstance(n, int) and self.cp.canon(s["type"]) in ("unsigned char *", "const unsigned char *", "uint8_t *", "const uint8_t *"):
            # the bytes of an integer, least significant first
            dt = d["inner"][0]["type"]
            if self.cp.canon(dt) in INTS_BYTES and self.cp.sizeof(dt) == n:
                v = const(0)
                for i in range(n):
                    b = self.read_lv(self.deref(self.ptr_add(vals[1], const(i), 1), "unsigned char"), st, "unsigned char")
                    v = apply(lambda x, y, i=i: leaf(dd.lin_add(x, dd.lin_scale(y, 256 ** i))), v, numn(b))
                self.write_lv(self.addr(d["inner"][0], st, fr), v, st, dt)
                return NONE
        raise Unsupported("memcpy of other shapes")

    def memset(self, vals, args, st, e):
        a = strip_casts(args[0])
        ety = deref_type(a["type"], self)
        r = self.cp.canon(ety) + "[]"
        k = ("reg", r)
        st.d[k] = apply(lambda m, p, v, n: leaf(T("fill", m, p, v, n)), self.get(st, k), vals[0], numn(vals[1]), numn(vals[2]))
        return NONE

    def printf(self, file, fmt, rest, st, e):
        if fmt.leaf is None or fmt.leaf.op != "str":
            return self.emit("fprintf", [file, fmt] + rest, st, e)
        parts, i, txt = [], 0, ""
        f = cstr(fmt.leaf)
        j = 0
        while i < len(f):
            if f[i] == "%":
                if f[i + 1] == "%":
                    txt += "%"
                    i += 2
                    continue
                k = i + 1
                while f[k] not in "diouxXeEfgGcsp":
                    k += 1
                if txt:
                    parts.append(const(txt))
                    txt = ""
                cv = f[i + 1:k + 1]
                cv = {"u": "d", "i": "d", "zu": "d", "lu": "d", "hhu": "d", "ld": "d"}.get(cv, cv)
                v = rest[j]
                j += 1

                def conv(t, cv=cv):
                    if t.op == "str" and cv == "s":
                        return const(cstr(t))
                    if t.op == "c" and cv == "d" and not isinstance(t.args[0], bool):
                        return const(str(t.args[0]))
                    return leaf(T("conv", cv, num(t)))
                parts.append(apply(conv, v))
                i = k + 1
            else:
                txt += f[i]
                i += 1
        if txt:
            parts.append(const(txt))
        return self.out(file, parts, st, e)

    def out(self, file, parts, st, e):
        io = self.get(st, "$io")

        def f(s, fl, *ps):
            old = []
            if s.op == "seq" and s.args and s.args[1].op == "eff" and s.args[1].args[0] == "out" and s.args[1].args[1] is fl:
                old = list(s.args[1].args[2:])
                s = s.args[0]
            acc = old
            for p in ps:
                if p.op == "c" and acc and acc[-1].op == "c":
                    acc[-1] = C(acc[-1].args[0] + p.args[0])
                elif not (p.op == "c" and p.args[0] == ""):
                    acc.append(p)
            return leaf(T("seq", s, T("eff", "out", fl, *acc)))
        st.d["$io"] = apply(f, io, file, *parts)
        return leaf(T("res_out"))


def fold(t, uns, w):
    if t.op == "c" and isinstance(t.args[0], int) and uns:
        return C(int(t.args[0]) & ((1 << w) - 1))
    return t


def bit_range(t):
    """(low, high) bits a non-negative term can have set, or None."""
    k, d = dd.lin_parts(t)
    if len(d) != 1 or k != 0:
        lo, hi = None, None
        if k != 0:
            return None
        rs = [bit_range(dd.mk_lin(0, {x: c})) for x, c in d.items()]
        if any(r is None for r in rs) or not rs:
            return None
        rs.sort()
        for a, b in zip(rs, rs[1:]):
            if a[1] > b[0]:
                return None
        return rs[0][0], rs[-1][1]
    (x, c), = d.items()
    if c <= 0 or c & (c - 1):
        return None
    s = c.bit_length() - 1
    if x.op == "ld" and region_of(x.args[1]) == "unsigned char[]":
        return s, s + 8
    return None


def disjoint_bits(x, y):
    a, b = bit_range(x), bit_range(y)
    return bool(a and b and (a[1] <= b[0] or b[1] <= a[0]))


def cstr(t):
    try:
        return json.loads(t.args[0])
    except Exception:
        return t.args[0].strip('"').encode().decode("unicode_escape")


def strip_paren(e):
    while e.get("kind") == "ParenExpr":
        e = e["inner"][0]
    return e


def strip_casts(e):
    while e.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and e.get("castKind") not in ("ArrayToPointerDecay", "LValueToRValue"):
        e = e["inner"][0]
    return e


def deref_type(t, ip):
    c = ip.cp.canon(t)
    if c.endswith("*"):
        q = t["qualType"].strip()
        return q[:-1].strip() if q.endswith("*") else c[:-1].strip()
    if c.endswith("]"):
        return c[:c.index("[")].strip()
    return c
