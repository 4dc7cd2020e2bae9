"""Reporting: obligations, violations, known findings, evidence."""
from __future__ import annotations

import json
import os
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.prog = pid, tier, prog
        self.violations = {}      # key -> (msg, where)
        self.obligations = 0
        self.undecided = []
        self.samples = []
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.scen = 0
        self.broken = []
        self.known = load_known(pid)
        self.known_hit = {}

    def obl(self, n=1, sample=None):
        self.obligations += n
        if sample is not None and len(self.samples) < 60:
            self.samples.append(sample)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def viol(self, key, msg, where=""):
        """key identifies rule + construct, without line numbers."""
        if key in self.known:
            self.known_hit[key] = msg
            return
        if key not in self.violations:
            self.violations[key] = (msg, where)

    def is_known(self, key):
        return key in self.known

    def hit_known(self, key, msg):
        self.known_hit[key] = msg

    def absorb(self, S):
        """Account for what a session analysed."""
        self.functions |= S.I.functions_seen
        self.count("abstract_calls", S.I.ncalls)
        self.count("ast_nodes_interpreted", S.I.node_count)
        self.count("effects_recorded", len(S.I.events))
        self.count("history_steps", len(S.steps))
        for label, ok in S.steps:
            if ok != "ok":
                k = f"{getattr(S, 'name', '')}:{label}"
                self.count("steps_raising_on_every_path")
                if label.startswith("fit") or label in S.results and label[0].isupper():
                    self.undecided.append("step raises on every path: " + k)

    def guard(self, name, fn, *a):
        """Run one scenario; an engine failure is reported as undecided, not as a verdict."""
        from .scenario import AnchorMissing
        self.scen += 1
        try:
            return fn(*a)
        except AnchorMissing as e:
            raise
        except Exception as e:  # noqa: BLE001
            self.broken.append(f"{name}: {type(e).__name__}: {e}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return None

    def pmap(self, tasks, procs=None):
        """Run scenarios [(name, fn, *args)] (each called as fn(ctx, *args)) in forked workers and merge what they report."""
        procs = procs or max(1, min(8, os.cpu_count() or 1, len(tasks)))
        if procs == 1 or os.environ.get("VERIF_DEBUG"):
            for name, fn, *a in tasks:
                self.guard(name, fn, self, *a)
            return
        import pickle
        kids = []
        for k in range(procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Ctx(self.pid, self.tier, self.prog)
                err = None
                try:
                    for name, fn, *a in tasks[k::procs]:
                        sub.guard(name, fn, sub, *a)
                except BaseException as e:  # noqa: BLE001
                    err = f"{type(e).__name__}: {e}"
                blob = pickle.dumps((err, sub.violations, sub.obligations, sub.undecided, sub.samples, sub.functions, sub.counts,
                                     sub.notes, sub.scen, sub.broken, sub.known_hit))
                with os.fdopen(w, "wb") as f:
                    f.write(blob)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        bad = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                bad.append("a worker died")
                continue
            err, viol, obl, und, samp, fns, cnt, notes, scen, broken, hit = pickle.loads(blob)
            if err:
                bad.append(err)
            for key, x in viol.items():
                self.violations.setdefault(key, x)
            self.obligations += obl
            self.undecided += und
            self.samples = (self.samples + samp)[:60]
            self.functions |= fns
            for key, n in cnt.items():
                self.count(key, n)
            self.notes += notes
            self.scen += scen
            self.broken += broken
            self.known_hit.update(hit)
        if bad:
            raise RuntimeError("; ".join(bad))

    def finish(self, wall, mod):
        for k in sorted(self.known_hit):
            print(f"KNOWN-FINDING: property={self.pid} {k} :: {self.known[k]}")
        print(f"[{self.pid}] scenarios={self.scen} obligations={self.obligations} functions={len(self.functions)} "
              f"violations={len(self.violations)} undecided={len(self.undecided) + len(self.broken)} "
              f"{' '.join(f'{k}={v}' for k, v in sorted(self.counts.items()))} wall={wall:.1f}s")
        for b in self.undecided[:20]:
            print("  undecided:", b)
        for b in self.broken:
            print("  undecided (engine):", b)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": (mod.__doc__ or "").strip(),
                "rule": getattr(mod, "RULE", ""),
                "obligations": self.obligations,
                "discharged": self.obligations - len(self.violations) - len(self.known_hit),
                "scenarios": self.scen,
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions),
                "modules_parsed": len(self.prog.modules),
                "counts": self.counts,
                "known_findings": sorted(self.known_hit),
                "undecided": self.undecided + self.broken,
                "samples": self.samples,
                "notes": self.notes,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(d, self.pid + ".violations.txt")
        if os.path.exists(rp):
            os.remove(rp)
        mn = getattr(mod, "MIN_OBLIGATIONS", 1)
        if self.scen and len(self.broken) == self.scen or self.obligations < mn:
            print(f"ANALYSIS-BROKEN property={self.pid}: {self.obligations} obligations (expected at least {mn})")
            if not self.violations:
                return 3
        if self.violations:
            with open(rp, "w") as f:
                for k, (m, w) in sorted(self.violations.items()):
                    f.write(f"{k}\n    {m}\n    at {w}\n")
            for k, (m, w) in sorted(self.violations.items()):
                print(f"  violated: {k}\n      {m}\n      at {w}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.strip()
                if not ln.startswith("finding:"):
                    continue
                body = ln[len("finding:"):].strip()
                if not body.startswith(f"property={pid} "):
                    continue
                body = body[len(f"property={pid} "):]
                key, _, desc = body.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out
