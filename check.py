#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property of /repo from its source."""
import importlib, os, re, sys, threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from vf import report
    from vf.checks import REGISTRY, SUPPORT
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if pid == "--list":
        print("\n".join(sorted(REGISTRY)))
        return 0
    modname, fn, rule = REGISTRY[pid]
    mod = importlib.import_module("vf.checks." + modname)
    r = report.Report(pid, tier, rule)
    getattr(mod, fn)(r)
    for other, names in SUPPORT.get(pid, []):
        # what this property rests on, decided by jobs of another property's check
        r.only = re.compile(names).search
        r.guard(f"in support: {other}", getattr(importlib.import_module("vf.checks." + REGISTRY[other][0]), REGISTRY[other][1]), r)
    return r.finish()


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
