"""Common driver: build the IR of /repo's current sources, run one property's rules, report."""
import importlib, json, os, sys, time, tempfile, shutil, traceback
from collections import defaultdict, Counter
import build, ir
from build import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")
BASEFN = os.path.join(VERIF, "lib", "base_functions.txt")


class Finding:
    """One violation: where it is, what rule it breaks, and an identity that survives edits
    elsewhere (function it is in + kind + what), never a line number."""

    def __init__(self, rule, fn, what, where, msg, trace=None):
        self.rule = rule; self.fn = fn; self.what = what; self.where = where; self.msg = msg
        self.trace = trace or []

    def key(self):
        return (self.rule, self.fn, self.what)

    def text(self):
        t = "%s [%s] in %s: %s" % (self.where, self.rule, self.fn, self.msg)
        if self.trace:
            t += "\n    path: " + " ".join(str(x) for x in self.trace)
        return t


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.work = tempfile.mkdtemp(prefix="apexsa_")
        self.mods = {}; self.srcs = None
        self.notes = []

    def module(self, fold=True, extra=None):
        k = (fold, tuple(extra or ()))
        if k not in self.mods:
            d = os.path.join(self.work, "m%d" % len(self.mods)); os.makedirs(d)
            js, self.srcs, h = build.build_module(work=d, extra=extra, fold=fold)
            if h:
                self.notes.append("helpers folded into their callers: " + " ".join(h))
            M = ir.Module(js, root=build.REPO)
            shutil.rmtree(d, ignore_errors=True)
            if len(M.defined) < 200:
                raise AnalysisBroken("only %d functions parsed" % len(M.defined))
            self.mods[k] = M
        return self.mods[k]

    @property
    def M(self):
        return self.module()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    """known: property=C05 rule=<rule> fn=<function> what=<what> count=<n> :: text"""
    out = Counter(); text = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("known:"):
                continue
            head, _, desc = l[6:].partition("::")
            kv = dict(x.split("=", 1) for x in head.split())
            if kv["property"] != pid:
                continue
            k = (kv["rule"], kv["fn"], kv.get("what", "-"))
            out[k] += int(kv.get("count", "1")); text[k] = desc.strip()
    return out, text


def split_known(pid, findings, M):
    """Findings minus those listed.  A listed finding follows its code when a helper that the
    reference tree does not have is extracted from the function it is listed under."""
    known, text = load_known(pid)
    left = Counter(known)
    base = set(open(BASEFN).read().split()) if os.path.exists(BASEFN) else set()
    used = Counter(); new = []
    callers = defaultdict(set)
    if M is not None:
        for f in M.defined:
            for c in f.calls():
                if c.cname in M.funcs:
                    callers[M.funcs[c.cname].dname].add(f.dname)
    for f in findings:
        cand = [f.fn]
        seen = set()
        while cand:
            n = cand.pop(0)
            if n in seen:
                continue
            seen.add(n)
            k = (f.rule, n, f.what)
            if left[k] > 0:
                left[k] -= 1; used[k] += 1
                break
            if n not in base:
                cand.extend(callers.get(n, ()))
        else:
            new.append(f)
    return new, used, text


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier, seed)
    try:
        res = mod.run(ctx)
    finally:
        ctx.close()
    findings, cov = res
    # one report per identity and place
    M = next(iter(ctx.mods.values()), None)
    new, used, text = split_known(pid, findings, M)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    cov.setdefault("explanation", getattr(mod, "RULE", mod.__doc__ or ""))
    cov.setdefault("translation_units", len(ctx.srcs or []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k, n in sorted(used.items()):
        print("KNOWN-FINDING: property=%s rule=%s fn=%s what=%s count=%d %s" % (pid, k[0], k[1], k[2], n, text.get(k, "")))
    rep = os.path.join(VERIF, "evidence", pid + ".report.txt")
    with open(rep, "w") as o:
        for f in new:
            o.write(f.text() + "\n")
        o.write("\n".join(ctx.notes) + "\n")
    cov["known_findings_listed"] = sum(used.values())
    cov["reports"] = [f.text() for f in new[:20]]
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for f in new:
        print(f.text())
    for f in new[:50]:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    if not new:
        print("OK property=%s %s" % (pid, {k: v for k, v in cov.items() if isinstance(v, (int, float))}))
    return 1 if new else 0


def main(argv):
    pid = argv[1].upper()
    tier = "thorough" if "--thorough" in argv else (os.environ.get("VERIF_TIER") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return run_check(pid, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 3


def par(fn, items, jobs=8):
    """Apply fn to every item in forked workers (module data shared by copy-on-write)."""
    import multiprocessing as mp
    global _PFN, _PIT
    _PFN = fn; _PIT = items
    if len(items) < 2:
        return [fn(x) for x in items]
    c = mp.get_context("fork")
    with c.Pool(jobs) as p:
        return p.map(_pcall, range(len(items)), chunksize=1)


def _pcall(k):
    return _PFN(_PIT[k])
