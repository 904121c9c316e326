#!/usr/bin/env python3
"""check.py <ID>: decide one property statically from /repo's current sources.

exit 0  the rule holds (KNOWN-FINDING lines for listed genuine defects)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the analysis itself is broken (an anchor vanished, the sources do not compile)
"""
import importlib, json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.setrecursionlimit(20000)


class Broken(Exception):
    pass


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.repo = os.environ.get("VERIF_REPO", "/repo")
        self.violations, self.broken, self.counts, self.samples, self.notes, self.undecided = [], [], {}, [], [], []
        self.rules = []
        self._mod = None

    @property
    def mod(self):
        if self._mod is None:
            import ir
            self._mod = ir.load()
        return self._mod

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)
        return cond

    def violation(self, key, message, where="", path=""):
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append(dict(key=key, message=message, where=where, path=path))

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def undecide(self, what, why):
        self.undecided.append(f"{what}: {why}")

    def pmap(self, fn, items, jobs=8):
        """Run fn(ctx, item) for every item in forked workers and merge what they found."""
        import multiprocessing as mp
        items = list(items)
        if len(items) <= 1 or os.environ.get("VERIF_SERIAL"):
            return [fn(self, it) for it in items]
        self.mod
        c = mp.get_context("fork")
        global _PM
        _PM = (self, fn, items)
        out = []
        with c.Pool(min(jobs, len(items))) as pool:
            for r in pool.imap(_pm_run, range(len(items))):
                out.append(r["result"])
                for v in r["violations"]:
                    self.violation(**v)
                for k, n in r["counts"].items():
                    self.count(k, n)
                self.broken += r["broken"]
                self.undecided += r["undecided"]
                for x in r["samples"]:
                    self.sample(x)
        return out

    def rule(self, text, fn, *a, **k):
        """Run one rule; a broken rule does not hide the findings of the others."""
        self.rules.append(text)
        try:
            return fn(self, *a, **k)
        except Broken as e:
            self.broken.append(f"{text}: {e}")
        except Exception as e:
            import ir
            if not isinstance(e, ir.IRError) and os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.broken.append(f"{text}: {type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:]}")


def _pm_run(k):
    ctx, fn, items = _PM
    ctx.violations, ctx.counts, ctx.broken, ctx.undecided, ctx.samples = [], {}, [], [], []
    res = None
    try:
        res = fn(ctx, items[k])
    except Broken as e:
        ctx.broken.append(str(e))
    except Exception as e:
        ctx.broken.append(f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:]}")
    return dict(violations=ctx.violations, counts=ctx.counts, broken=ctx.broken, undecided=ctx.undecided, samples=ctx.samples,
                result=res if isinstance(res, (list, tuple, dict, str, int)) else None)


def known(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(pid)
    ev = os.environ.get("VERIF_EVDIR") or os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except Broken as e:
        ctx.broken.append(str(e))
    except Exception as e:
        traceback.print_exc()
        ctx.broken.append(f"{type(e).__name__}: {e}")
    kn = known(pid)
    new = [v for v in ctx.violations if v["key"] not in kn]
    old = [v for v in ctx.violations if v["key"] in kn]
    cov = dict(explanation=(mod.__doc__ or pid).strip(), rules=ctx.rules, samples=ctx.samples)
    cov.update(ctx.counts)
    if ctx.undecided:
        cov["undecided"] = ctx.undecided
    if ctx.notes:
        cov["notes"] = ctx.notes
    if ctx.broken:
        cov["broken"] = ctx.broken
    json.dump(dict(property=pid, tier=os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
                   seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                   assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new)),
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['message']} [{v['where']}]")
    for b in ctx.broken:
        print(f"BROKEN: {b}", file=sys.stderr)
    if new:
        rp = os.path.join(ev, pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"property {pid}\nkey      {v['key']}\nwhere    {v['where']}\nfinding  {v['message']}\npath     {v['path']}\n\n")
        for v in new:
            print(f"  {v['where']}: {v['message']}")
            if v["path"]:
                print(f"      path: {v['path']}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if ctx.broken:
        sys.exit(2)
    n = ", ".join(f"{k}={v}" for k, v in ctx.counts.items())
    print(f"OK property={pid} {n}" + (f" undecided={len(ctx.undecided)}" if ctx.undecided else ""))
    sys.exit(0)


if __name__ == "__main__":
    main()
