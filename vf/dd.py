"""Terms and gated values.

A *term* is an interned, ite-free expression.  A *gated value* (Node) is a decision diagram: inner
nodes test an atom (a boolean term), leaves carry a term.  Every operation is applied leaf-wise, so
two computations of the same value normalise to the same node, whatever the order of the tests or
the statement structure they came from.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd
import itertools, sys

sys.setrecursionlimit(20000)


class Blowup(Exception):
    """The gated value got larger than the analysis is willing to represent."""


class Term:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)


_terms: dict = {}
_tid = itertools.count()


def T(op, *args):
    key = (op,) + tuple((a if isinstance(a, (Term, Node)) else (type(a).__name__, a)) for a in args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = next(_tid)
        t._h = hash(key)
        _terms[key] = t
    return t


class Node:
    __slots__ = ("atom", "hi", "lo", "leaf", "id")

    def __repr__(self):
        return shownode(self)


_leaves: dict = {}
_brs: dict = {}
_nid = itertools.count()


def leaf(t):
    n = _leaves.get(t)
    if n is None:
        n = Node()
        n.atom = n.hi = n.lo = None
        n.leaf = t
        n.id = next(_nid)
        _leaves[t] = n
    return n


def C(v):
    return T("c", v)


def const(v):
    return leaf(C(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
MAXNODES = 400000


def br(atom, hi, lo):
    if hi is lo:
        return hi
    if atom.op == "eq" and atom.args[1].op in CONSTOPS:
        hi = _assume_eq(hi, atom.args[0], atom.args[1])
        if hi is lo:
            return hi
    elif atom.op == "cls":
        hi = _assume_cls(hi, atom)
        lo = _assume_notcls(lo, atom)
        if hi is lo:
            return hi
    key = (atom, hi, lo)
    n = _brs.get(key)
    if n is None:
        if len(_brs) > MAXNODES:
            raise Blowup("too many gated-value nodes")
        n = Node()
        n.atom, n.hi, n.lo, n.leaf = atom, hi, lo, None
        n.id = next(_nid)
        _brs[key] = n
    return n


CONSTOPS = {"c", "enum", "g", "o"}     # "o": one particular object, different from every other


def is_constlike(t):
    return t.op in CONSTOPS


_ae_memo: dict = {}


def _assume_eq(n, x, c):
    """n under the assumption x == c: other equalities of x with a constant are decided."""
    if n.leaf is not None:
        return n
    key = (n, x, c)
    r = _ae_memo.get(key)
    if r is None:
        a = n.atom
        if a.op == "eq" and a.args[0] is x and a.args[1].op in CONSTOPS:
            r = _assume_eq(n.hi if a.args[1] is c else n.lo, x, c)
        else:
            h, l = _assume_eq(n.hi, x, c), _assume_eq(n.lo, x, c)
            r = n if (h is n.hi and l is n.lo) else (h if h is l else _rawbr(a, h, l))
        _ae_memo[key] = r
    return r


def _rawbr(a, h, l):
    if h is l:
        return h
    key = (a, h, l)
    n = _brs.get(key)
    if n is None:
        n = Node()
        n.atom, n.hi, n.lo, n.leaf = a, h, l, None
        n.id = next(_nid)
        _brs[key] = n
    return n


# class facts: atom ('cls', x, classname); SUPER maps class -> set of superclasses (incl. itself)
SUPER: dict = {}


def cls_relation(c, d):
    """What is known of isinstance(x, d) when isinstance(x, c): True, False or None."""
    sc = SUPER.get(c)
    sd = SUPER.get(d)
    if sc is None or sd is None:
        return None
    if d in sc:
        return True
    if c in sd:
        return None
    # unrelated in a single-inheritance hierarchy
    return False


_ac_memo: dict = {}


def _assume_cls(n, atom, pos=True):
    if n.leaf is not None:
        return n
    key = (n, atom, pos)
    r = _ac_memo.get(key)
    if r is None:
        a = n.atom
        done = False
        if a.op == "cls" and a.args[0] is atom.args[0]:
            if pos:
                rel = cls_relation(atom.args[1], a.args[1])
                if rel is not None:
                    r = _assume_cls(n.hi if rel else n.lo, atom, pos)
                    done = True
            else:
                # not isinstance(x, c): then not isinstance(x, d) for d below c
                if atom.args[1] in SUPER.get(a.args[1], ()):
                    r = _assume_cls(n.lo, atom, pos)
                    done = True
        if not done:
            h, l = _assume_cls(n.hi, atom, pos), _assume_cls(n.lo, atom, pos)
            r = n if (h is n.hi and l is n.lo) else _rawbr(a, h, l)
        _ac_memo[key] = r
    return r


def _assume_notcls(n, atom):
    return _assume_cls(n, atom, False)


# ---------------------------------------------------------------- atom order
# Class and operator tests first (they cut most), then by creation.
_ord: dict = {}


def order(a):
    k = _ord.get(a)
    if k is None:
        pr = 0 if a.op == "cls" else 1 if (a.op == "eq" and a.args[1].op in CONSTOPS) else 2
        k = _ord[a] = (pr, a.id)
    return k


def top(nodes):
    best = None
    for n in nodes:
        if n.leaf is None:
            if best is None or order(n.atom) < order(best):
                best = n.atom
    return best


def cof(n, atom, val):
    if n.leaf is None and n.atom is atom:
        return n.hi if val else n.lo
    return n


def ite(c, a, b, memo=None):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if memo is None:
        memo = {}
    key = (c, a, b)
    r = memo.get(key)
    if r is not None:
        return r
    if c.leaf is not None:
        # a non-boolean leaf used as a condition
        r = ite(truth(c), a, b, memo)
    else:
        t = top((c, a, b))
        hi = ite(cof(c, t, True), _simp(cof(a, t, True), t, True), _simp(cof(b, t, True), t, True), memo)
        lo = ite(cof(c, t, False), _simp(cof(a, t, False), t, False), _simp(cof(b, t, False), t, False), memo)
        r = br(t, hi, lo)
    memo[key] = r
    return r


def _simp(n, atom, val):
    return n


def apply(f, *nodes, memo=None):
    """Apply f (terms -> Node) to the leaves of the nodes."""
    if memo is None:
        memo = {}
    r = memo.get(nodes)
    if r is not None:
        return r
    t = top(nodes)
    if t is None:
        r = f(*[n.leaf for n in nodes])
    else:
        hi = apply(f, *[cof(n, t, True) for n in nodes], memo=memo)
        lo = apply(f, *[cof(n, t, False) for n in nodes], memo=memo)
        # f may have introduced tests that order before t: rebuild with ite
        if (hi.leaf is None and not order(t) < order(hi.atom)) or (lo.leaf is None and not order(t) < order(lo.atom)):
            r = ite(_atomnode(t), hi, lo)
        else:
            r = br(t, hi, lo)
    memo[nodes] = r
    if len(memo) > MAXNODES:
        raise Blowup("apply")
    return r


def _atomnode(a):
    return _rawbr(a, TRUE, FALSE)


def atom(a):
    return _atomnode(a)


def not_(n):
    return ite(n, FALSE, TRUE)


def and_(*ns):
    r = TRUE
    for n in ns:
        r = ite(r, n, FALSE)
    return r


def or_(*ns):
    r = FALSE
    for n in ns:
        r = ite(r, TRUE, n)
    return r


def truth(n):
    return apply(truth_leaf, n)


TRUTHY_OPS = {"obj", "g", "enum", "clos", "alloc", "o"}


def truth_leaf(t):
    if t.op == "c":
        return TRUE if t.args[0] else FALSE
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if t.args else FALSE
    if t.op in TRUTHY_OPS:
        return TRUE
    if t.op == "lin":
        return not_(eq_leaf(t, C(0)))
    if t.op == "cat":
        if any(a.op == "c" and a.args[0] for a in t.args):
            return TRUE
    return atom(T("truthy", t))


def leaves(n, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if n in seen:
        return out
    seen.add(n)
    if n.leaf is not None:
        out.append(n.leaf)
    else:
        leaves(n.hi, seen, out)
        leaves(n.lo, seen, out)
    return out


def atoms(n, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if n in seen or n.leaf is not None:
        return out
    seen.add(n)
    if n.atom not in out:
        out.append(n.atom)
    atoms(n.hi, seen, out)
    atoms(n.lo, seen, out)
    return out


def restrict(n, fixed, memo=None):
    """Cofactor w.r.t. a dict atom -> bool."""
    if memo is None:
        memo = {}
    if n.leaf is not None:
        return n
    r = memo.get(n)
    if r is None:
        if n.atom in fixed:
            r = restrict(n.hi if fixed[n.atom] else n.lo, fixed, memo)
        else:
            r = br(n.atom, restrict(n.hi, fixed, memo), restrict(n.lo, fixed, memo))
        memo[n] = r
    return r


# ---------------------------------------------------------------- arithmetic
def is_num(t):
    return t.op == "c" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def lin_parts(t):
    """(const, {term: coef}) of a term seen as a linear form."""
    if t.op == "c" and isinstance(t.args[0], bool):
        return (1 if t.args[0] else 0), {}
    if is_num(t):
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], {t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}
    return 0, {t: 1}


def mk_lin(k, d):
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    args = []
    for t in sorted(d, key=lambda t: t.id):
        args += [t, d[t]]
    return T("lin", k, *args)


def lin_add(a, b, s=1):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + s * c
    return mk_lin(ka + s * kb, d)


def lin_scale(a, s):
    k, d = lin_parts(a)
    return mk_lin(k * s, {t: c * s for t, c in d.items()})


def mul_leaf(a, b):
    if is_num(a):
        return leaf(lin_scale(b, a.args[0]))
    if is_num(b):
        return leaf(lin_scale(a, b.args[0]))
    x, y = sorted((a, b), key=lambda t: t.id)
    return leaf(T("mul", x, y))


def le0(l):
    """atom node for linear form l <= 0 over the integers."""
    k, d = lin_parts(l)
    if not d:
        return TRUE if k <= 0 else FALSE
    lead = min(d, key=lambda t: t.id)
    if d[lead] > 0:
        return atom(T("le0", l))
    # l <= 0  <=>  not (-l + 1 <= 0)
    return not_(atom(T("le0", lin_add(lin_scale(l, -1), C(1)))))


def lt_leaf(a, b):  # a < b  (integers)
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if a.args[0] < b.args[0] else FALSE
        except TypeError:
            pass
    return le0(lin_add(lin_add(a, b, -1), C(1)))


def le_leaf(a, b):
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if a.args[0] <= b.args[0] else FALSE
        except TypeError:
            pass
    return le0(lin_add(a, b, -1))


def distinct(a, b):
    """Are two constant-like terms known to be different values?"""
    if a is b:
        return False
    return a.op in CONSTOPS and b.op in CONSTOPS


BOOLISH = {"truthy", "cls", "le0", "eq", "in", "any", "b"}


GROUND = False      # every object of the scenario is known: two different constructions are two objects


def eq_leaf(a, b):
    if a is b:
        return TRUE
    if GROUND and a.op == b.op == "obj":
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if (a.args[0] == b.args[0] and (type(a.args[0]) is type(b.args[0]) or
                        not isinstance(a.args[0], bool) and not isinstance(b.args[0], bool))) else FALSE
    if a.op in CONSTOPS and b.op in CONSTOPS:
        return FALSE
    if (a.op in ("obj", "alloc", "list", "tuple", "dict", "cat", "clos") and b.op in CONSTOPS and not
            (a.op == "cat")) or (b.op in ("obj", "alloc", "list", "tuple", "dict", "clos") and a.op in CONSTOPS):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq_leaf(x, y) for x, y in zip(a.args, b.args)])
    if "lin" in (a.op, b.op) or is_num(a) or is_num(b):
        l = lin_add(a, b, -1)
        k, d = lin_parts(l)
        if not d:
            return TRUE if k == 0 else FALSE
        if len(d) == 1:
            (t, c), = d.items()
            if isinstance(k, int) and isinstance(c, int) and k % c == 0:
                return atom(T("eq", t, C(-k // c)))
            return atom(T("eq", lin_scale(l, 1 if c > 0 else -1), C(0)))
        lead = min(d, key=lambda t: t.id)
        if d[lead] < 0:
            l = lin_scale(l, -1)
        return atom(T("eq", l, C(0)))
    if a.op in CONSTOPS:
        a, b = b, a
    if b.op not in CONSTOPS and b.id < a.id:
        a, b = b, a
    if b.op == "c" and isinstance(b.args[0], bool):
        pass
    return atom(T("eq", a, b))


# ---------------------------------------------------------------- theory: is a cube of atoms consistent?
_fm_memo = {}


def _fm_norm(k, items):
    """(const, sorted (id, coef)) with coprime coefficients and the constant tightened over the integers."""
    g = 0
    for _, c in items:
        g = gcd(g, c)
    if g > 1:
        items = tuple((v, c // g) for v, c in items)
        k = -((-k) // g)
    return k, items


def _fm_infeasible(cons):
    """cons: list of (const, {term: coef}) meaning form <= 0.  Fourier-Motzkin with integer tightening."""
    best = {}
    for k, d in cons:
        if not d:
            if k > 0:
                return True
            continue
        if not isinstance(k, int) or any(not isinstance(c, int) for c in d.values()):
            m = 1
            for c in [k, *d.values()]:
                m = m * Fraction(c).denominator // gcd(m, Fraction(c).denominator)
            k, d = int(Fraction(k) * m), {t: int(Fraction(c) * m) for t, c in d.items()}
        k, it = _fm_norm(k, tuple(sorted((t.id, c) for t, c in d.items() if c)))
        if k > best.get(it, k - 1):
            best[it] = k
    key = frozenset(best.items())
    r = _fm_memo.get(key)
    if r is None:
        r = _fm_memo[key] = _fm_run(best)
    return r


def _fm_run(best):
    while best:
        for it, k in best.items():
            if len(it) <= 2:
                o = best.get(tuple((v, -c) for v, c in it))
                if o is not None and k + o > 0:
                    return True
        occ = {}
        for it in best:
            for v, c in it:
                p = occ.setdefault(v, [0, 0])
                p[c > 0] += 1
        v = min(occ, key=lambda v: (occ[v][0] * occ[v][1] - occ[v][0] - occ[v][1], v))
        pos, neg, new = [], [], {}
        for it, k in best.items():
            c = next((c for w, c in it if w == v), 0)
            if c > 0:
                pos.append((c, it, k))
            elif c < 0:
                neg.append((-c, it, k))
            else:
                new[it] = k
        for a, ip, kp in pos:
            for b, im, km in neg:
                d = {}
                for t, c in ip:
                    d[t] = c * b
                for t, c in im:
                    c = d.get(t, 0) + c * a
                    if c:
                        d[t] = c
                    else:
                        d.pop(t, None)
                k = kp * b + km * a
                if not d:
                    if k > 0:
                        return True
                    continue
                k, it = _fm_norm(k, tuple(sorted(d.items())))
                if k > new.get(it, k - 1):
                    new[it] = k
        best = new
        if len(best) > 3000:
            return False
    return False


def consistent(cube, facts=()):
    """cube: list of (atom, bool).  False only when certainly contradictory."""
    eqs, neqs, cons = {}, [], list(facts)
    numeric = {}
    for a, v in cube:
        if a.op == "le0":
            k, d = lin_parts(a.args[0])
            if v:
                cons.append((k, d))
            else:
                cons.append((1 - k, {t: -c for t, c in d.items()}))
        elif a.op == "eq":
            x, c = a.args
            if v:
                if c.op in CONSTOPS:
                    if x in eqs and eqs[x] is not c:
                        return False
                    eqs[x] = c
                if is_num(c) or "lin" in (x.op, c.op):
                    k, d = lin_parts(lin_add(x, c, -1))
                    cons.append((k, d))
                    cons.append((-k, {t: -q for t, q in d.items()}))
            else:
                neqs.append((x, c))
                if c.op in CONSTOPS and eqs.get(x) is c:
                    return False
    for x, c in neqs:
        if eqs.get(x) is c:
            return False
    pos = {}
    for a, v in cube:
        if a.op == "cls":
            for b, w in cube:
                if b.op == "cls" and b.args[0] is a.args[0] and v:
                    rel = cls_relation(a.args[1], b.args[1])
                    if rel is not None and rel != w:
                        return False
    if cons:
        # non-negativity of unsigned quantities is in `facts`
        nn = set()
        for k, d in cons:
            for t in d:
                if nonneg(t):
                    nn.add(t)
        cons2 = cons + [(0, {t: -1}) for t in nn]
        if _fm_infeasible(cons2):
            return False
        todo = [(x, c) for x, c in neqs if is_num(c) or "lin" in (x.op, c.op)]
        again = True
        while todo and again:
            again, rest = False, []
            for x, c in todo:
                k, d = lin_parts(lin_add(x, c, -1))
                if not (set(d) & set(t for _, dd in cons for t in dd)) and d:
                    if not any(nonneg(t) for t in d):
                        continue
                c2 = cons2 + [(0, {t: -1}) for t in d if nonneg(t)]
                below, above = (k + 1, d), (1 - k, {t: -q for t, q in d.items()})
                b, a = _fm_infeasible(c2 + [below]), _fm_infeasible(c2 + [above])
                if a and b:
                    return False
                if a or b:      # only one side remains: integers
                    cons2 = cons2 + [above if b else below]
                    again = True
                else:
                    rest.append((x, c))
            todo = rest
    elif neqs:
        pass
    return True


NONNEG_OPS = {"low31", "uload", "len", "ivar", "wrap"}


def nonneg(t):
    return t.op in NONNEG_OPS


# ---------------------------------------------------------------- comparison of tables
def diff(a, b, extra=None, limit=1):
    """Consistent cubes on which the gated values a and b have different leaves."""
    out = []
    seen = {}

    def walk(x, y, cube):
        if x is y or len(out) >= limit:
            return
        if x.leaf is not None and y.leaf is not None:
            if extra and extra(x.leaf, y.leaf, cube):
                return
            out.append((list(cube), x.leaf, y.leaf))
            return
        t = top((x, y))
        for v in (True, False):
            cube.append((t, v))
            if consistent(cube):
                walk(cof(x, t, v), cof(y, t, v), cube)
            cube.pop()

    walk(a, b, [])
    return out


def cubes(n, pred=None, limit=100000):
    """All consistent (cube, leaf) paths of n."""
    out = []

    def walk(x, cube):
        if len(out) > limit:
            raise Blowup("cubes")
        if x.leaf is not None:
            if pred is None or pred(x.leaf):
                out.append((list(cube), x.leaf))
            return
        for v in (True, False):
            cube.append((x.atom, v))
            if consistent(cube):
                walk(x.hi if v else x.lo, cube)
            cube.pop()

    walk(n, [])
    return out


# ---------------------------------------------------------------- substitution
def subst(n, f, memo=None):
    """Rebuild node n with f(term) -> Node|None applied to every subterm (bottom-up, first match)."""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    if n.leaf is not None:
        r = subst_term(n.leaf, f, memo)
    else:
        c = subst_term(n.atom, f, memo)
        r = ite(truth(c) if not isbool(c) else c, subst(n.hi, f, memo), subst(n.lo, f, memo))
    memo[n] = r
    return r


def isbool(n):
    return all(l is TRUE.leaf or l is FALSE.leaf for l in leaves(n))


REBUILD: dict = {}


def subst_term(t, f, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if not any(isinstance(a, (Term, Node)) for a in t.args):
            r = atom(t) if t.op in BOOLISH else leaf(t)
        else:
            newargs = []
            termpos = []
            for a in t.args:
                if isinstance(a, Term):
                    newargs.append(subst_term(a, f, memo))
                    termpos.append(True)
                elif isinstance(a, Node):
                    newargs.append(subst(a, f, memo))
                    termpos.append(False)
                else:
                    newargs.append(a)
                    termpos.append(None)
            if all((x is TRUE or x is FALSE or (x.leaf is a) if p else x is a) for x, a, p in zip(newargs, t.args, termpos) if p is not None) and \
               all((x.leaf is a) for x, a, p in zip(newargs, t.args, termpos) if p):
                r = atom(t) if t.op in BOOLISH else leaf(t)
            else:
                tn = [x for x, p in zip(newargs, termpos) if p]

                def build(*ls):
                    it = iter(ls)
                    args = [next(it) if p else x for x, p in zip(newargs, termpos)]
                    return rebuild(t.op, args)
                r = apply(build, *tn)
    memo[t] = r
    return r


def rebuild(op, args):
    h = REBUILD.get(op)
    if h:
        return h(args)
    t = T(op, *args)
    return atom(t) if op in BOOLISH else leaf(t)


def _rb_lin(args):
    acc = C(args[0])
    for i in range(1, len(args), 2):
        acc = lin_add(acc, lin_scale(args[i], args[i + 1]))
    return leaf(acc)


REBUILD["lin"] = _rb_lin
REBUILD["le0"] = lambda a: le0(a[0])
REBUILD["eq"] = lambda a: eq_leaf(a[0], a[1])
REBUILD["truthy"] = lambda a: truth_leaf(a[0])
REBUILD["mul"] = lambda a: mul_leaf(a[0], a[1])


def contains(x, pred, seen=None):
    """Does term/node x contain a subterm satisfying pred?"""
    if seen is None:
        seen = set()
    if x in seen:
        return False
    seen.add(x)
    if isinstance(x, Term):
        if pred(x):
            return True
        return any(contains(a, pred, seen) for a in x.args if isinstance(a, (Term, Node)))
    if x.leaf is not None:
        return contains(x.leaf, pred, seen)
    return contains(x.atom, pred, seen) or contains(x.hi, pred, seen) or contains(x.lo, pred, seen)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return "…"
    if not isinstance(t, Term):
        return shownode(t, depth) if isinstance(t, Node) else repr(t)
    a = t.args
    s = lambda x: show(x, depth + 1)
    if t.op == "c":
        return repr(a[0])
    if t.op in ("g", "enum"):
        return str(a[-1])
    if t.op == "v":
        return str(a[0])
    if t.op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if t.op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if t.op == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if t.op == "cls":
        return f"{s(a[0])} is a {a[1]}"
    if t.op == "lin":
        parts = [f"{'' if a[i+1]==1 else str(a[i+1])+'*'}{s(a[i])}" for i in range(1, len(a), 2)]
        if a[0]:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")"
    if t.op == "le0":
        return f"{s(a[0])}<=0"
    if t.op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if t.op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    return f"{t.op}(" + ", ".join(s(x) for x in a) + ")"


def shownode(n, depth=0):
    if n.leaf is not None:
        return show(n.leaf, depth)
    if depth > 8:
        return "…"
    return f"({show(n.atom, depth+1)} ? {shownode(n.hi, depth+1)} : {shownode(n.lo, depth+1)})"


def showcube(cube):
    return " & ".join(("" if v else "not ") + show(a) for a, v in cube) or "always"
