"""The surface grammars: what each production builds, operator precedence, tokens."""
from __future__ import annotations
import ast
import re
from .. import dd
from ..dd import T, C, leaf
from .compiler import job, project, where_of
from .scen import Scen, var, val


def rules(fd):
    """The right-hand sides in a function's @_("...") decorators."""
    out = []
    for d in fd.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "_":
            out += [a.value for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    return [" ".join(r.split()) for r in out]


def key(lhs, rhs):
    return f"{lhs} : {rhs.split('%')[0].strip()}"


def productions(mod, cls=None):
    """{production: its function}; the functions become functions of the module under that name."""
    m = project().mods[mod]
    body = m.classes[cls].body if cls else m.tree.body
    out = {}
    for fd in body:
        if isinstance(fd, ast.FunctionDef):
            for r in rules(fd):
                out[key(fd.name, r)] = fd
                m.funcs[key(fd.name, r)] = fd
    return out


LISTS = ("section", "struct_list", "enum_list", "enum_declaration_list", "variable_declaration_list", "symbol_list", "definition_list", "spec_list", "expr_list")


NODES = {"struct": "StructDefinition", "enum": "EnumDefinition", "definition": "Definition", "spec": "Formula", "ft_spec_section": "FutureTimeSpecSection",
         "pt_spec_section": "PastTimeSpecSection", "struct_section": "StructSection", "enum_section": "EnumSection", "input_section": "InputSection",
         "define_section": "DefineSection", "type": "IntType"}


def decls(i, typ):
    return T("tuple", var(f"loc{i}"), T("list", var(f"text a{i}"), var(f"text b{i}")), typ)


def matched(s, prod):
    """The parts of a production as the parser hands them to its action."""
    rhs = prod.split(" : ", 1)[1].split() if not prod.endswith(" : ") else []
    p = s.arg("p", T("o", "YaccProduction", "p")) or T("o", "YaccProduction", "p")
    vals = []
    for i, sym in enumerate(rhs):
        if sym.isupper():
            v = T("v", f"text {sym}{i}")
        elif sym == "variable_declaration_list":
            v = T("list", decls(i, s.obj("ArrayType", "t1")), decls(i + 10, s.obj("BoolType", "t2")))
        elif sym == "variable_declaration" and "KW_INPUT" in rhs:
            v = decls(i + 20, s.obj("IntType", "t0"))
        elif sym == "enum_declaration_list" and "enum_declaration_last" in rhs:
            v = T("list", *[T("tuple", var(f"loc{j}"), var(f"text m{j}"), x) for j, x in enumerate((C(None), s.obj("Constant", "given"), C(None)))])
        elif sym == "enum_declaration_last":
            v = T("tuple", var("loc9"), var("text last"), C(None))
        elif sym == "interval":
            v = s.obj("ConcreteInterval", f"interval{i}", lb=var(f"lb{i}"), ub=var(f"ub{i}"))
        elif sym in LISTS:
            v = T("list", var(f"{sym}{i}.0"), var(f"{sym}{i}.1"))
        elif sym == "expr":
            v = s.obj("Expression", f"expr{i}", bpd=var(f"bpd{i}"), wpd=var(f"wpd{i}"), parents=set(), engine=var(f"engine{i}"))
        elif sym in NODES:
            v = s.obj(NODES[sym], f"{sym}{i}")
        else:
            v = var(f"{sym}{i}")
        vals.append(v)
    for i, (sym, v) in enumerate(zip(rhs, vals)):
        n = rhs.count(sym)
        s.set(p, **{sym if n == 1 else f"{sym}{rhs[:i].count(sym)}": v})
    s.content = (p, T("list", *vals))
    return p


def production_job(mod, cls, prod):
    s = Scen(prod)
    matched(s, prod)
    me = T("o", cls, "self")
    s.arg("self", me)
    s.set(me, mission_time=var("mission_time"), spec_num=var("spec_num"), status=True, is_ft=var("is_ft"), is_pt=var("is_pt"), filename=var("text file"),
          literals={"sig": T("g", "cpt", "Signal")}, atomics={"a3", "a14"} if prod.startswith("program") else set())
    kw = s.kw(unroll=6)
    start = kw["setup"]

    def setup(ip, st):
        r = start(ip, st)
        p, items = s.content
        st.d["ct", p] = leaf(items)
        return r
    kw["setup"] = setup
    kw["models"]["log.FileLocation"] = lambda ip, a, st: leaf(C("location"))
    return job(mod, prod, cls=cls, ignore=(".loc",), refmod="ref_" + mod, reffn=prod, **kw)


def coverage(rep, grammars=None):
    """Every production of the published grammar is still there (unless its nonterminal has been rewritten), with its precedence."""
    for mod, cls in grammars or GRAMMARS:
        if cls not in project().mods[mod].classes:
            rep.skip(mod, "no such parser")
            continue
        got, want = productions(mod, cls), productions("ref_" + mod)
        for k in want:
            lhs = k.split(" : ")[0]
            if k in got:
                a, b = ([r.split("%prec")[1].strip() for r in rules(fd) if key(lhs, r) == k and "%prec" in r] for fd in (got[k], want[k]))
                if a == b:
                    rep.ok(what="productions")
                else:
                    rep.bad(f"{mod}:{k}:prec", f"the production `{k}` has precedence {a or 'of its own'}, specified {b or 'its own'}", f"{project().relpath(mod)}:{got[k].lineno}")
            elif any(g.split(" : ")[0] == lhs and g not in want for g in got) or not any(g.split(" : ")[0] == lhs for g in got):
                rep.skip(f"{mod}:{k}", "the nonterminal has other productions")
            else:
                rep.bad(f"{mod}:{k}:missing", f"the grammar no longer has the production `{k}`", project().relpath(mod))


GRAMMARS = (("parse_c2po", "C2POParser"), ("parse_mltl", "MLTLParser"), ("parse_equiv", "MLTLEquivParser"))
EGG = (("parse_egglog_output", "EgglogOutputParser"),)
# from loosest to tightest
PRECEDENCE = {
    "parse_c2po": [("left", "LOG_IMPL LOG_XOR LOG_IFF"), ("left", "LOG_OR"), ("left", "LOG_AND"), ("left", "TL_UNTIL TL_RELEASE TL_SINCE TL_TRIGGER"),
                   ("left", "TL_GLOBAL TL_FUTURE TL_HIST TL_ONCE"), ("left", "BW_OR"), ("left", "BW_XOR"), ("left", "BW_AND"), ("left", "REL_EQ REL_NEQ"),
                   ("left", "REL_GT REL_LT REL_GTE REL_LTE"), ("left", "BW_SHIFT_LEFT BW_SHIFT_RIGHT"), ("left", "ARITH_ADD ARITH_SUB"),
                   ("left", "ARITH_MUL ARITH_DIV ARITH_MOD ARITH_POW"), ("right", "LOG_NEG BW_NEG UNARY_ARITH_SUB"), ("right", "LPAREN DOT ARITH_SQRT ARITH_ABS PREV LBRACK")],
    "parse_mltl": [("left", "LOG_IMPL LOG_IFF"), ("left", "LOG_OR"), ("left", "LOG_AND"), ("left", "TL_UNTIL TL_RELEASE TL_SINCE TL_TRIGGER"),
                   ("right", "LOG_NEG TL_GLOBAL TL_FUTURE TL_HIST TL_ONCE"), ("right", "LPAREN")],
    "parse_equiv": [("left", "LOG_IMPL LOG_IFF"), ("left", "LOG_OR"), ("left", "LOG_AND"), ("left", "TL_UNTIL TL_RELEASE"), ("left", "REL_EQ REL_NEQ"),
                    ("left", "REL_GT REL_LT REL_GTE REL_LTE"), ("left", "ARITH_ADD ARITH_SUB"), ("left", "ARITH_MUL ARITH_DIV"), ("right", "LOG_NEG TL_GLOBAL TL_FUTURE"),
                    ("right", "LPAREN MIN MAX")],
}


def class_assign(cd, name):
    for st in cd.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
            return st.value
    return None


def precedence(rep):
    """Relative binding strength and associativity of every pair of operators."""
    for mod, cls in GRAMMARS:
        cd = project().mods[mod].classes.get(cls)
        tab = class_assign(cd, "precedence") if cd else None
        got = {}
        try:
            for lvl, row in enumerate(tab.elts):
                assoc, names = row.elts[0].value, [e.id if isinstance(e, ast.Name) else e.value for e in row.elts[1:]]
                for n in names:
                    got[n] = (lvl, assoc)
        except (AttributeError, IndexError):
            rep.skip(f"{mod}:precedence", "no literal table")
            continue
        want = {n: (lvl, a) for lvl, (a, ns) in enumerate(PRECEDENCE[mod]) for n in ns.split()}
        names = [n for n in want if n in got]
        for n in want:
            if n not in got:
                rep.bad(f"{mod}:precedence:{n}", f"{n} has no precedence", f"{project().relpath(mod)}:{tab.lineno}")
        for a in names:
            if got[a][1] != want[a][1]:
                rep.bad(f"{mod}:associativity:{a}", f"{a} associates to the {got[a][1]}, specified {want[a][1]}", f"{project().relpath(mod)}:{tab.lineno}")
            sign = lambda t, b: (t[a][0] > t[b][0]) - (t[a][0] < t[b][0])
            wrong = [b for b in names if sign(got, b) != sign(want, b)]
            if wrong:
                rep.bad(f"{mod}:precedence:{a}", f"{a} and {wrong[0]} are not ordered as specified", f"{project().relpath(mod)}:{tab.lineno}")
            else:
                rep.ok(what="precedence")


class Lexer:
    """The token table of a lexer class: patterns in order, words that become other tokens, characters skipped."""

    def __init__(self, cd):
        self.order, self.pats, self.words, self.skip, self.funcs, self.bad = [], {}, {}, "", {}, None
        for st in cd.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                n = st.targets[0].id
                if n == "ignore":
                    self.skip = st.value.value
                else:
                    self.put(n, st.value.value)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and isinstance(st.value, ast.Name):
                t = st.targets[0]
                if isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant):
                    self.words[t.value.id, t.slice.value] = st.value.id
            elif isinstance(st, ast.FunctionDef) and rules(st):
                self.put(st.name, "|".join(f"(?:{d.args[0].value})" for d in st.decorator_list))
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id not in ("tokens", "literals"):
                self.bad = ast.unparse(st)[:60]
        try:
            self.re = re.compile("|".join(f"(?P<{n}>{self.pats[n]})" for n in self.order))
        except re.error as e:
            self.bad = str(e)

    def put(self, n, pat):
        if n not in self.pats:
            self.order.append(n)
        self.pats[n] = pat

    def tokens(self, text):
        out, i = [], 0
        while i < len(text):
            if text[i] in self.skip:
                i += 1
                continue
            m = self.re.match(text, i)
            if not m or m.end() == i:
                return out + [("error", text[i])]
            n = m.lastgroup
            n = self.words.get((n, m.group()), n)
            if not n.startswith("ignore_"):
                out.append((n, m.group()))
            i = m.end()
        return out


# every spelling of every token
SPELL = {
    "parse_c2po": {
        "KW_STRUCT": "STRUCT", "KW_ENUM": "ENUM", "KW_INPUT": "INPUT", "KW_DEFINE": "DEFINE", "KW_FTSPEC": "FTSPEC", "KW_PTSPEC": "PTSPEC", "KW_FOREACH": "foreach",
        "KW_FORSOME": "forsome", "KW_FOREXACTLY": "forexactly", "KW_FORATLEAST": "foratleast", "KW_FORATMOST": "foratmost", "KW_TIMESTAMP": "TAU", "TL_GLOBAL": "G",
        "TL_FUTURE": "F", "TL_HIST": "H", "TL_ONCE": "O", "TL_UNTIL": "U", "TL_RELEASE": "R", "TL_SINCE": "S", "TL_TRIGGER": "T", "TL_MISSION_TIME": "M", "TL_TRUE": "true",
        "TL_FALSE": "false", "LOG_NEG": "! ¬", "LOG_AND": "&& ∧", "LOG_OR": "|| ∨", "LOG_IMPL": "-> →", "LOG_IFF": "<-> ↔", "LOG_XOR": "xor", "BW_NEG": "~", "BW_AND": "&",
        "BW_OR": "|", "BW_XOR": "^", "BW_SHIFT_LEFT": "<<", "BW_SHIFT_RIGHT": ">>", "REL_EQ": "==", "REL_NEQ": "!= ≠", "REL_GTE": ">= ≥", "REL_LTE": "<= ≤", "REL_GT": ">",
        "REL_LT": "<", "ARITH_ADD": "+", "ARITH_SUB": "-", "ARITH_MUL": "* • ⋅", "ARITH_DIV": "/ ÷", "ARITH_MOD": "%", "ARITH_POW": "pow", "ARITH_SQRT": "sqrt", "ARITH_ABS": "abs",
        "PREV": "prev", "ASSIGN": ":=", "CONTRACT_ASSIGN": "=>", "SEMI": ";", "COLON": ":", "DOT": ".", "DDOT": "..", "COMMA": ",", "LBRACK": "[", "RBRACK": "]", "LBRACE": "{",
        "RBRACE": "}", "LPAREN": "(", "RPAREN": ")", "NUMERAL": "0 7 10 4294967295 -3 -120", "DECIMAL": "1.5 0.25 -2.75 .5 1e-05 1.5e+20 -2.5e-10",
        "SYMBOL": "a x1 _y Ga Ft truex trueish foreachs prevs previous powder absolute xorx sqrt2 TAU2 M1 STRUCTS count min max bool int float"},
    "parse_mltl": {
        "TL_GLOBAL": "G", "TL_FUTURE": "F", "TL_HIST": "H", "TL_ONCE": "O", "TL_UNTIL": "U", "TL_RELEASE": "R", "TL_SINCE": "S", "TL_TRIGGER": "T", "TL_MISSION_TIME": "M",
        "TL_TRUE": "true", "TL_FALSE": "false", "TL_ATOMIC": "a0 a7 a10 a123", "LOG_NEG": "!", "LOG_AND": "&", "LOG_OR": "|", "LOG_IMPL": "->", "LOG_IFF": "<->",
        "NUMERAL": "0 7 10 123", "COMMA": ",", "LBRACK": "[", "RBRACK": "]", "LPAREN": "(", "RPAREN": ")"},
    "parse_equiv": {
        "TL_GLOBAL": "G", "TL_FUTURE": "F", "TL_UNTIL": "U", "TL_RELEASE": "R", "TL_MISSION_TIME": "M", "TL_TRUE": "true", "TL_FALSE": "false", "TL_ATOMIC": "a0 a7 a10 a123",
        "TL_BOUND": "b0 b3 b10", "TL_PROPOSITION": "p0 p5 p12", "LOG_NEG": "!", "LOG_AND": "&", "LOG_OR": "|", "LOG_IMPL": "->", "LOG_IFF": "<->", "REL_EQ": "=", "REL_NEQ": "!=",
        "REL_GTE": ">=", "REL_LTE": "<=", "REL_GT": ">", "REL_LT": "<", "ARITH_ADD": "+", "ARITH_SUB": "-", "ARITH_MUL": "*", "ARITH_DIV": "/", "MIN": "min", "MAX": "max",
        "CONSTRAINT_LABEL": "c:", "NUMERAL": "0 7 10 123", "COMMA": ",", "LBRACK": "[", "RBRACK": "]", "LPAREN": "(", "RPAREN": ")"},
    "parse_egglog_output": {
        "OP_IMPLIES": "Implies", "OP_NOT": "Not", "OP_EQUIV": "Equiv", "OP_AND": "And2 And3 And10", "OP_OR": "Or2 Or3 Or4", "OP_FUTURE": "Future", "OP_GLOBAL": "Global", "OP_UNTIL": "Until",
        "OP_RELEASE": "Release", "KW_VAR": "Var", "KW_INTERVAL": "Interval", "KW_BOOL": "Bool", "STRING": '"a0" "a12"', "NUMERAL": "0 7 10 123", "BOOL_TRUE": "true",
        "BOOL_FALSE": "false", "LPAREN": "(", "RPAREN": ")"},
}
GLUED = {"parse_c2po": ["G[0,5]a", "a U[3,M]!b", "x<<2", "x<=2", "x>>y>=z", "a->b<->c", "a&&b&c||d|e", "x!=-1", "s.m[3]", "y[0..2]", "l:a=>b;", "D:=a;", "p: int;", "a--b", "a -- b; c", "f(x,-2.5)",
                        "!(a==b)", "prev(true,a)", "{a,b}", "E: {A: 3, B};", "a%b*c/d+e - f", "~x^y"],
         "parse_equiv": ["c: b0+2*b1<=M", "G[b0,b1](a0&!p12)", "a0U[0,b3]a1", "a0->a1<->a2|a3", "c:min(b0,b1)=max(b2,3)-1", "c:b0!=b1/2"],
         "parse_egglog_output": ['(And2 (Var "a0") (Not (Var "a12")))', '(Until (Interval 0 10) (Bool true) (Or3 (Var "a1") (Bool false) (Var "a2")))', '(Global(Interval 1 2)(Var"a0"))'],
         "parse_mltl": ["G[0,5](a0&!a12)", "a0U[3,M]a1", "a0->a1<->a2|a3", "H[2]true", "a1 S[0,3] false"]}


def lexing(rep, grammars=None):
    """Each spelling is one token, also when other text follows; the rest of the table cannot cut a name in two."""
    for mod, cls in grammars or GRAMMARS:
        cls = cls.replace("Parser", "Lexer")
        cd = project().mods[mod].classes.get(cls)
        lx = Lexer(cd) if cd else None
        where = f"{project().relpath(mod)}:{cd.lineno if cd else '?'} ({cls})"
        if lx is None or lx.bad or not lx.order:
            rep.skip(f"{mod}:tokens", f"no literal token table ({lx.bad if lx else 'no lexer'})")
            continue
        for tok, words in SPELL[mod].items():
            if tok not in lx.pats and tok not in lx.words.values():
                rep.skip(f"{mod}:{tok}", "no such token")
                continue
            for w in words.split():
                for after in ("", " ", " x ", "(", ")", "a"[:0] + "\t"):
                    if after == "(" and tok == "DECIMAL":
                        continue
                    got = lx.tokens(w + after)
                    if got[:1] == [(tok, w)]:
                        rep.ok(what="tokens")
                    else:
                        rep.bad(f"{mod}:token:{w}", f"`{w}`{' followed by ' + repr(after) if after else ''} is read as {got[:2]}, specified {tok}", where)
                        break
        spell = {w: t for t, ws in SPELL[mod].items() for w in ws.split()}
        for text in GLUED[mod]:
            want = reference_tokens(mod, text, spell)
            got = lx.tokens(text)
            if got == want:
                rep.ok(what="tokens")
            else:
                d = next((i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b), 0)
                rep.bad(f"{mod}:text:{text}", f"`{text}` is read as {[t for t, _ in got][:9]}, specified {[t for t, _ in want][:9]} (token {d})", where)
        names(rep, mod, lx, where)


def reference_tokens(mod, text, spell):
    """Longest spelling first; names and numbers as the language defines them."""
    out, i = [], 0
    if mod == "parse_c2po":
        text = re.sub(r"--.*", "", text)
    ops = sorted((w for w in spell if not w[0].isalnum() and w[0] not in "_-." or w in ("-", "->", ".", "..")), key=lambda w: -len(w))
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = re.compile(r"-?(\d*\.\d+)").match(text, i)
        k = re.compile(r"-?([1-9]\d*|0)").match(text, i) if mod == "parse_c2po" else re.compile(r"[1-9]\d*|0").match(text, i)
        w = re.compile({"parse_c2po": r"[A-Za-z_]\w*", "parse_mltl": r"a(?:[1-9]\d*|0)|true|false|[A-Z]", "parse_equiv": r"[abp](?:[1-9]\d*|0)|true|false|min|max|c:|[A-Z]",
                        "parse_egglog_output": r'[A-Za-z]\w*|"\w*"'}[mod]).match(text, i)
        if m and mod == "parse_c2po":
            out.append(("DECIMAL", m.group()))
        elif k:
            out.append(("NUMERAL", k.group()))
        elif w:
            out.append((spell.get(w.group()) or {"parse_c2po": "SYMBOL", "parse_egglog_output": "STRING"}.get(mod) or {"a": "TL_ATOMIC", "b": "TL_BOUND", "p": "TL_PROPOSITION"}.get(w.group()[0]), w.group()))
        else:
            o = next((o for o in ops if text.startswith(o, i)), None)
            if o is None:
                return out + [("error", text[i])]
            out.append((spell[o], o))
        i += len(out[-1][1])
    return out


def first_chars(pat):
    """The characters a match can begin with (None: unknown)."""
    try:
        from re import _parser as sre
    except ImportError:
        import sre_parse as sre
    try:
        tree = sre.parse(pat)
    except re.error:
        return None
    return {c for c in map(chr, range(33, 127)) if may_start(tree, c)}


def may_start(tree, c):
    """Can a match of the pattern begin with c?  (Optional parts are passed over.)"""
    for op, arg in tree:
        name = str(op)
        if name == "LITERAL":
            return chr(arg) == c
        if name == "NOT_LITERAL":
            return chr(arg) != c
        if name == "ANY":
            return True
        if name == "IN":
            return in_set(arg, c)
        if name == "BRANCH":
            if any(may_start(b, c) for b in arg[1]):
                return True
            return False
        if name == "SUBPATTERN":
            return may_start(arg[-1], c)
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            if may_start(arg[2], c):
                return True
            if arg[0] > 0:
                return False
            continue
        if name == "AT":
            continue
        return True
    return False


def in_set(items, c):
    neg, hit = False, False
    for op, arg in items:
        name = str(op)
        if name == "NEGATE":
            neg = True
        elif name == "LITERAL":
            hit |= chr(arg) == c
        elif name == "RANGE":
            hit |= arg[0] <= ord(c) <= arg[1]
        elif name == "CATEGORY":
            cat = str(arg)
            k = c.isdigit() if "DIGIT" in cat else c.isspace() if "SPACE" in cat else c.isalnum() or c == "_"
            hit |= k != ("NOT" in cat)
    return hit != neg


def names(rep, mod, lx, where):
    """No token tried before the one for names can match the beginning of a name."""
    name = {"parse_c2po": "SYMBOL"}.get(mod)
    if name not in lx.order:
        return
    letters = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
    for n in lx.order[:lx.order.index(name)]:
        cs = first_chars(lx.pats[n])
        if cs is None:
            rep.skip(f"{mod}:{n}", "pattern not understood")
        elif cs & letters:
            rep.bad(f"{mod}:name:{n}", f"a name that begins with a match of {n} ({lx.pats[n]!r}) is cut in two", where)
        else:
            rep.ok(what="names")


def written(rep):
    """The text of each operator is read back as the token whose production builds that operator."""
    p = project()
    cd = p.mods["parse_c2po"].classes.get("C2POLexer")
    lx = Lexer(cd) if cd else None
    if lx is None or lx.bad:
        rep.skip("operator texts", "no literal token table")
        return
    for cls, table in (("OperatorKind", READ), ("SetAggregationKind", READ_SETS)):
        members = p.enum_members(cls)
        for k, tok in table.items():
            try:
                text = ast.literal_eval(members[k])
            except Exception:
                rep.skip(f"{cls}.{k}", "no literal text")
                continue
            got = lx.tokens(text)
            if [t for t, _ in got] == [tok]:
                rep.ok(what="operator texts")
            else:
                rep.bad(f"{cls}.{k}:text", f"{cls}.{k} is written `{text}`, which is read as {[t for t, _ in got]}, not {tok}", p.relpath("cpt"))


READ = dict(BITWISE_AND="BW_AND", BITWISE_OR="BW_OR", BITWISE_XOR="BW_XOR", BITWISE_NEGATE="BW_NEG", SHIFT_LEFT="BW_SHIFT_LEFT", SHIFT_RIGHT="BW_SHIFT_RIGHT",
            ARITHMETIC_ADD="ARITH_ADD", ARITHMETIC_SUBTRACT="ARITH_SUB", ARITHMETIC_MULTIPLY="ARITH_MUL", ARITHMETIC_DIVIDE="ARITH_DIV", ARITHMETIC_MODULO="ARITH_MOD",
            ARITHMETIC_NEGATE="ARITH_SUB", ARITHMETIC_POWER="ARITH_POW", ARITHMETIC_SQRT="ARITH_SQRT", ARITHMETIC_ABS="ARITH_ABS", EQUAL="REL_EQ", NOT_EQUAL="REL_NEQ",
            GREATER_THAN="REL_GT", LESS_THAN="REL_LT", GREATER_THAN_OR_EQUAL="REL_GTE", LESS_THAN_OR_EQUAL="REL_LTE", LOGICAL_AND="LOG_AND", LOGICAL_OR="LOG_OR",
            LOGICAL_XOR="LOG_XOR", LOGICAL_IMPLIES="LOG_IMPL", LOGICAL_EQUIV="LOG_IFF", LOGICAL_NEGATE="LOG_NEG", GLOBAL="TL_GLOBAL", FUTURE="TL_FUTURE", UNTIL="TL_UNTIL",
            RELEASE="TL_RELEASE", HISTORICAL="TL_HIST", ONCE="TL_ONCE", SINCE="TL_SINCE", TRIGGER="TL_TRIGGER", PREVIOUS="PREV")
READ_SETS = dict(FOR_EACH="KW_FOREACH", FOR_SOME="KW_FORSOME", FOR_EXACTLY="KW_FOREXACTLY", FOR_AT_LEAST="KW_FORATLEAST", FOR_AT_MOST="KW_FORATMOST")


def entry_job(mod, lexer, parser):
    """parse_c2po and parse_mltl themselves: what they read, when they fail, what they record."""
    s = Scen()
    lx, ps = s.obj(lexer, "lexer"), s.obj(parser, "parser")
    s.arg("options", {"filename": var("text filename"), "mission_time": var("given")})
    s.arg("context", s.obj("Context", "context", mission_time=var("set")))
    s.model(f"{mod}.{lexer}", lambda ip, a, st: made(ip, st, lx, a))
    s.model(f"{mod}.{parser}", lambda ip, a, st: made(ip, st, ps, a))
    return job(mod, mod, pure=("read_file",), effects=("clear", "set_spec_filename", "assign_signal_ids"), **s.kw(unroll=2))


def made(ip, st, o, args):
    for i, a in enumerate(args):
        st.d["at", o, f"arg{i}"] = ip.val(a, st)
    return leaf(o)


def error_job(mod, cls):
    """A character or token that does not fit always makes the whole input fail; a character is skipped."""
    s = Scen()
    s.arg("self", s.obj(cls, "self", status=var("status"), index=var("index"), lineno=var("lineno"), filename=var("text file")))
    tok = "t" if cls.endswith("Lexer") else "token"
    s.arg(tok, s.obj("Token", "token", value=T("v", "text token"), lineno=var("lineno")))
    kw = s.kw(unroll=2)
    kw["models"]["log.FileLocation"] = lambda ip, a, st: leaf(C("location"))
    return job(mod, f"{cls}.error", reffn="lexer_error" if tok == "t" else "parser_error", refmod="ref_parse_c2po", cls=cls, ignore=("result", ".lineno"), **kw)


def init_job(mod, cls):
    s = Scen()
    s.arg("self", T("o", cls, "self"))
    return job(mod, f"{cls}.__init__", reffn=f"{cls}_init", refmod="ref_" + mod, cls=cls, ignore=(".filename",), **s.kw(unroll=2))


def grammar_jobs(grammars):
    jobs = []
    for mod, cls in grammars:
        if cls not in project().mods[mod].classes:
            continue
        got, want = productions(mod, cls), productions("ref_" + mod)
        jobs += [production_job(mod, cls, k) for k in want if k in got]
        jobs += [f(mod, c) for f in (error_job, init_job) for c in (cls, cls.replace("Parser", "Lexer")) if project().func(mod, f"{c}.{'error' if f is error_job else '__init__'}")]
    return jobs


def p27(rep):
    jobs = [("productions", coverage), ("precedence", precedence), ("tokens", lexing)] + grammar_jobs(GRAMMARS)
    jobs += [entry_job(mod, cls.replace("Parser", "Lexer"), cls) for mod, cls in GRAMMARS if cls in project().mods[mod].classes]
    rep.tasks(jobs)
