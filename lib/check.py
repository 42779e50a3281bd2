"""Check runner: violations, known findings, evidence."""
import json, os, sys, time, traceback
import facts, mir, ai

VERIF = facts.VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.prog = mir.Program()
        self.viol = []       # (key, message)
        self.cov = {}
        self.notes = []
        self.units = []
        self._flat = {}

    def violation(self, key, msg, trace=None):
        for k, m, t in self.viol:
            if k == key:
                return
        self.viol.append((key, msg, trace or []))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def unit(self, s):
        if s not in self.units:
            self.units.append(s)

    def floor(self, name, least):
        """an instance count below what was confirmed by hand is a violation"""
        n = self.cov.get(name, 0)
        if n < least:
            self.violation("floor:" + name,
                           "only %d %s found in the analysed program, at least %d expected: "
                           "the construct the rule checks has gone missing" % (n, name, least))

    def parallel(self, items, fn, jobs=None):
        """fn(ctx, item) for every item, in forked workers; the workers'
        violations, counts and units are merged in item order"""
        import multiprocessing as mp
        global _WORK
        items = list(items)
        if not items:
            return []
        _WORK = (self, items, fn)
        n = min(jobs or os.cpu_count() or 1, len(items), 8)
        with mp.get_context("fork").Pool(n) as p:
            res = p.map(_worker, range(len(items)), chunksize=1)
        out = []
        for viol, cov, units, exc, ret in res:
            if exc is not None:
                kind, msg = exc
                raise {"anchor": mir.MissingAnchor, "overflow": ai.Overflow}.get(kind, RuntimeError)(msg)
            for v in viol:
                self.violation(*v)
            for k, x in cov.items():
                self.count(k, x)
            for u in units:
                self.unit(u)
            out.append(ret)
        return out

    def flat(self, f, **kw):
        return mir.flatten(self.prog, f, **kw)


_WORK = None


def _worker(i):
    ctx, items, fn = _WORK
    ctx.viol, ctx.cov, ctx.units = [], {}, []
    exc = ret = None
    try:
        ret = fn(ctx, items[i])
    except mir.MissingAnchor as e:
        exc = ("anchor", str(e))
    except ai.Overflow as e:
        exc = ("overflow", str(e))
    except Exception:
        exc = ("other", traceback.format_exc())
    return ctx.viol, ctx.cov, ctx.units, exc, ret


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run(pid, tier, fn, meta):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        fn(ctx)
    except mir.MissingAnchor as e:
        ctx.violation("missing-anchor", "required construct not found: %s" % e)
    except ai.Overflow as e:
        ctx.violation("budget", "analysis did not reach a fixpoint: %s" % e)
    known = {k["key"]: k for k in known_findings() if k["property"] == pid}
    new = [v for v in ctx.viol if v[0] not in known]
    old = [v for v in ctx.viol if v[0] in known]
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = dict(ctx.cov)
    cov["explanation"] = meta["rule"]
    cov["analysed"] = ctx.units[:400]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": meta.get("assumptions", []),
          "violations": [{"key": k, "message": m, "trace": t} for k, m, t in new]}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m, t in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, m))
    for k, m, t in new:
        print("%s: [%s] %s" % (pid, k, m))
        for x in t:
            print("    " + x)
    if new:
        rp = os.path.join(evd, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, m, t in new:
                f.write("[%s] %s\n%s\n" % (k, m, "\n".join("    " + x for x in t)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (pid, " ".join("%s=%s" % kv for kv in sorted(ctx.cov.items())), time.time() - t0))
    return 0
