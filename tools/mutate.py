#!/usr/bin/env python3
"""mutate.py PID FILE [LO-HI] [MAX]: mutate FILE (relative to the repository) in a scratch copy, run a check, list the survivors."""
import os, random, re, shutil, subprocess, sys, tempfile

OPS = [("<=", "<"), ("<", "<="), (">=", ">"), (">", ">="), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+ ", "- "), ("- ", "+ "),
       ("true", "false"), ("false", "true"), (" 1", " 2"), (" 0", " 1"), ("True", "False"), ("False", "True"), (" and ", " or "), (" or ", " and "),
       ("not ", ""), ("min(", "max("), ("max(", "min("), ("++", "--"), ("!", ""), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"),
       (".lb", ".ub"), (".ub", ".lb"), ("[0]", "[1]"), ("[1]", "[0]"), ("op1", "op2"), ("op2", "op1"), ("wpd", "bpd"), ("bpd", "wpd"), ("break;", ";"), ("continue", "pass"),
       ("* ", "+ "), ("return True", "return False"), ("is not None", "is None"), ("elif ", "if "), ("+=", "-="), ("%", "/")]


def main():
    pid, rel = sys.argv[1:3]
    lo, hi = (map(int, sys.argv[3].split("-")) if len(sys.argv) > 3 else (1, 10 ** 9))
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    rng = random.Random(int(os.environ.get("SEED", "1")))
    d = tempfile.mkdtemp(prefix="mut")
    for sub in ("compiler", "monitors/c", "monitors/rust"):
        if os.path.isdir("/repo/" + sub):
            shutil.copytree("/repo/" + sub, os.path.join(d, sub), ignore=shutil.ignore_patterns("build", "target", "__pycache__", "test*"))
    path = os.path.join(d, rel)
    src = open(path).read()
    lines = src.split("\n")
    muts = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not (lo <= i + 1 <= hi) or s.startswith(("//", "#", "*", "/*", "R2U2_DEBUG", "R2U2_TRACE", "log.", "import", "from ")) or '"""' in s:
            continue
        if os.environ.get("MATCH") and not re.search(os.environ["MATCH"], l):
            continue
        for a, b in OPS:
            for m in re.finditer(re.escape(a), l):
                n = l[:m.start()] + b + l[m.end():]
                muts.append((i, n))
        if s.endswith(";") and "=" in s and not s.startswith(("int", "uint", "r2u2_")):
            muts.append((i, l[:len(l) - len(l.lstrip())] + ";"))
        if rel.endswith(".py") and re.match(r"\s*[\w\.\[\]]+ *(=|\+=) ", l) is None and re.match(r"\s*[\w\.]+\(.*\)$", l):
            muts.append((i, l[:len(l) - len(l.lstrip())] + "pass"))
    rng.shuffle(muts)
    surv = caught = inv = 0
    for i, n in muts[:mx]:
        open(path, "w").write("\n".join(lines[:i] + [n] + lines[i + 1:]))
        if rel.endswith(".py"):
            try:
                compile(open(path).read(), path, "exec")
            except SyntaxError:
                inv += 1
                continue
        elif rel.endswith(".c"):
            if subprocess.run(["clang", "-fsyntax-only", "-w", "-I" + os.path.join(d, "monitors/c/src"), path], capture_output=True).returncode:
                inv += 1
                continue
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), pid],
                           env=dict(os.environ, VF_REPO=d), capture_output=True, text=True)
        if p.returncode == 1 and "VIOLATION" in p.stdout:
            caught += 1
            if os.environ.get("SHOW"):
                k = [x for x in p.stdout.split("\n") if x.startswith("  [")]
                print(f"caught  {i+1}: {n.strip()}   {k[0][:160] if k else ''}")
        else:
            surv += 1
            t = [x for x in p.stdout.split("\n") if "obligations" in x]
            print(f"SURVIVE {i+1}: {n.strip()}\n     was: {lines[i].strip()}   rc={p.returncode} {t[0] if t else p.stderr[-300:]}", flush=True)
    print(f"caught {caught} survived {surv} invalid {inv} of {len(muts)}")
    shutil.rmtree(d)


main()
