"""Outcome of one check: obligations, findings, evidence, exit code."""
from __future__ import annotations
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, rest = rest.split(" ", 1)
                key, _, text = rest.partition(" :: ")
                out[(pid, key[len("key="):].strip())] = text.strip()
    return out


class Report:
    def __init__(self, pid, tier="quick", rule=""):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.counts = {}
        self.obligations = 0
        self.findings = []       # (key, message, where)
        self.undecided = []
        self.samples = []
        self.notes = []
        self.explain = []
        self.only = None         # which jobs of another property's check run in support of this one

    def ok(self, n=1, what=None, sample=None):
        self.obligations += n
        if what:
            self.counts[what] = self.counts.get(what, 0) + n
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def require(self, cond, key, msg, where=None, what=None):
        """One obligation: a finding when cond is false."""
        self.ok(1, what)
        if not cond:
            self.bad(key, msg, where)
        return cond

    def bad(self, key, msg, where=None):
        key = key.replace("\n", " ")
        if not any(k == key for k, _, _ in self.findings):
            self.findings.append((key, msg, where))

    def skip(self, what, why):
        self.undecided.append(f"{what}: {why}")

    def guard(self, what, fn, *a, **k):
        """Run part of a check; an analysis limit is recorded, not reported as a violation."""
        try:
            return fn(*a, **k)
        except RecursionError:
            self.skip(what, "analysis limit: recursion")
        except Exception as e:  # an unsupported construct leaves this part undecided
            self.skip(what, f"{type(e).__name__}: {e}")
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        return None

    def tasks(self, jobs, limit=200, total=700, width=8):
        """Run (name, fn(report)) jobs in forked children; merge what they record.  A job that runs out of time is undecided."""
        import pickle, select, signal, warnings
        warnings.simplefilter("ignore")
        jobs = [j for j in jobs if self.only is None or self.only(j[0])]
        todo, live = jobs[::-1], {}
        end = time.time() + total
        sys.stdout.flush()
        while todo or live:
            while todo and len(live) < width:
                name, fn = todo.pop()
                if time.time() > end:
                    self.skip(name, "time limit of the whole check")
                    continue
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    sub = Report(self.pid, self.tier, self.rule)
                    sub.guard(name, fn, sub)
                    data = pickle.dumps((sub.obligations, sub.counts, sub.findings, sub.undecided, sub.samples, sub.notes))
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                    os._exit(0)
                os.close(wr)
                live[rd] = [pid, name, min(time.time() + limit, end + 5), b""]
            if not live:
                continue
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in list(live):
                pid, name, dl, buf = live[fd]
                done = False
                if fd in ready:
                    b = os.read(fd, 1 << 20)
                    live[fd][3] = buf + b
                    done = not b
                elif time.time() > dl:
                    os.kill(pid, signal.SIGKILL)
                    done, live[fd][3] = True, b""
                if done:
                    os.close(fd)
                    os.waitpid(pid, 0)
                    buf = live.pop(fd)[3]
                    if not buf:
                        self.skip(name, "analysis limit (time or memory)")
                        continue
                    n, counts, fi, un, sa, no = pickle.loads(buf)
                    self.obligations += n
                    for k, v in counts.items():
                        self.counts[k] = self.counts.get(k, 0) + v
                    for f in fi:
                        self.bad(*f)
                    self.undecided += un
                    self.samples += sa[:max(0, 12 - len(self.samples))]
                    self.notes += no

    def finish(self):
        self.undecided.sort()
        self.findings.sort(key=lambda f: f[0])
        known = known_findings()
        viol, kn = [], []
        for key, msg, where in self.findings:
            t = known.get((self.pid, key))
            (kn if t is not None else viol).append((key, msg, where))
        wall = round(time.time() - self.t0, 2)
        cov = {
            "explanation": self.rule + (" " + " ".join(self.explain) if self.explain else ""),
            "obligations": self.obligations,
            "per_rule": self.counts,
            "undecided": len(self.undecided),
            "undecided_list": self.undecided[:40],
            "known_findings": [k for k, _, _ in kn],
        }
        if self.samples:
            cov["samples"] = self.samples
        if self.notes:
            cov["notes"] = self.notes[:40]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": cov, "wall_s": wall, "violations": len(viol),
              "assumptions": ["the Python and C front ends model the constructs they accept faithfully; constructs they "
                              "do not accept leave the obligation undecided, which is counted above"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, msg, where in kn:
            print(f"KNOWN-FINDING: property={self.pid} {known[(self.pid, key)]} [{key}]")
        for u in self.undecided[:20]:
            print(f"undecided: {u}")
        print(f"{self.pid}: {self.obligations} obligations, {len(viol)} violations, {len(kn)} known findings, "
              f"{len(self.undecided)} undecided, {wall}s")
        if viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.txt")
            with open(rp, "w") as f:
                for key, msg, where in viol:
                    f.write(f"key: {key}\nwhere: {where}\nwhat: {msg}\n\n")
            for key, msg, where in viol[:20]:
                print(f"  [{key}] {where or ''}: {msg}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.obligations == 0:
            print(f"{self.pid}: nothing could be analysed (anchors missing)")
        return 0
