"""Runner: loads the program, applies the rules of one property, writes the evidence file."""
import concurrent.futures as cf, glob, importlib, json, os, sys, time, traceback
from .front import Headers, AnalysisBroken, HERE, REPO, build_tool
from .prog import Prog
from . import interp, laws

REGISTRY = {}      # property -> [(rule name, function)]
LAWFILES = {}      # property -> [law file]


def rule(pid, name):
    def d(f):
        REGISTRY.setdefault(pid, []).append((name, f))
        return f
    return d


class Ob:
    """one obligation: held | violated | undecided"""
    __slots__ = ("status", "rule", "where", "what", "key", "data")

    def __init__(self, status, rule, where, what, key=None, data=None):
        self.status, self.rule, self.where, self.what, self.key, self.data = status, rule, where, what, key or where, data


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.H = Headers()
        self._units = {}
        self._laws = {}
        self.analysed = set()
        self.broken = []

    def unit(self, name, config="serial", extra=()):
        """the type-checked program reachable from a witness unit"""
        k = (name, config, tuple(extra))
        if k not in self._units:
            lf = laws.LawFile(self.H, os.path.join(HERE, "witness", name + ".cpp"), config, extra)
            self._units[k] = Prog(lf.data, self.H.root)
            self._units[k].dropped = lf.dropped
        return self._units[k]

    def preload(self, names, config="serial", extra=()):
        todo = [n for n in names if (n, config, tuple(extra)) not in self._units]
        if len(todo) > 1:
            self.H.syntax(os.path.join(HERE, "witness", "empty.cpp"), config)
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda n: self.unit(n, config, extra), todo))

    def law_unit(self, name, config="serial", extra=()):
        k = (name, config, tuple(extra))
        if k not in self._laws:
            lf = laws.LawFile(self.H, os.path.join(HERE, "laws", name + ".cpp"), config, extra)
            P = Prog(lf.data, self.H.root)
            P.dropped, P.law_path = lf.dropped, lf.path
            self._laws[k] = P
        return self._laws[k]

    def all_units(self):
        names = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HERE, "witness", "w_*.cpp")))
        self.preload(names)
        return [self.unit(n) for n in names]

    def close(self):
        self.H.close()


def unit_or_error(ctx, spec):
    try:
        return ctx.law_unit(*spec)
    except AnalysisBroken as e:
        return e


def law_obligations(ctx, pid):
    obs = []
    files = LAWFILES.get(pid, [])
    if len(files) > 1:
        ctx.H.syntax(os.path.join(HERE, "witness", "empty.cpp"))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda n: unit_or_error(ctx, (n,) if isinstance(n, str) else n), files))
    for spec in files:
        spec = (spec,) if isinstance(spec, str) else spec
        P = unit_or_error(ctx, spec)
        if isinstance(P, AnalysisBroken):
            obs.append(Ob("undecided", "law", "laws/%s.cpp" % spec[0], "does not type-check: " + str(P)[-300:], key="typecheck:" + spec[0]))
            continue
        tag = "" if len(spec) < 3 else " [%s]" % " ".join(spec[2])
        for n, msg in P.dropped.items():
            if any(pid in c for c in [n]) or True:
                obs.append(Ob("undecided", "law", "laws/%s.cpp:%s" % (spec[0], n), "does not type-check: " + msg, key="typecheck:" + n))
        for r in laws.run_all(P, laws.laws_in(P, pid), 300 if ctx.tier == "quick" else 600):
            ctx.analysed.update(r.get("functions", ()))
            st = {"valid": "held", "agreed": "held", "refuted": "violated", "unknown": "undecided"}[r["verdict"]]
            where = ", ".join(r.get("functions", [])[:6])
            what = r["law"] + tag + ": " + r["verdict"] + (" " + r["detail"] if r["detail"] else "")
            obs.append(Ob(st, "law", where or r["law"], what, key=r["law"] + tag, data=r))
    return obs


def load_rules():
    for f in sorted(glob.glob(os.path.join(HERE, "ffsa", "rules_*.py"))):
        importlib.import_module("ffsa." + os.path.basename(f)[:-3])


def known():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def main(argv):
    sys.setrecursionlimit(50000)
    pid = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier == "thorough":
        interp.MORE, interp.MORE_S = 30000, 90.0
    t0 = time.time()
    load_rules()
    ctx = None
    obs = []
    try:
        build_tool()
        ctx = Ctx(tier, seed)
        obs += law_obligations(ctx, pid)
        for name, f in REGISTRY.get(pid, []):
            try:
                for o in f(ctx):
                    if o.rule is None:
                        o.rule = name
                    obs.append(o)
            except Exception as e:
                traceback.print_exc()
                obs.append(Ob("undecided", name, "rule " + name, "the rule could not be evaluated: %s: %s" % (type(e).__name__, str(e)[-300:]), key="rule:" + name))
        if not any(o.status != "undecided" for o in obs):
            raise AnalysisBroken("nothing could be decided: " + "; ".join(o.what for o in obs)[:2000])
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 2
    finally:
        if ctx:
            ctx.close()
    kf = {(k["property"], k["key"]): k for k in known() if k.get("status") == "known"}
    viol, kfs = [], []
    for o in obs:
        if o.status == "violated":
            (kfs if (pid, o.key) in kf else viol).append(o)
    held = [o for o in obs if o.status == "held"]
    und = [o for o in obs if o.status == "undecided"]
    rep = os.path.join(HERE, "evidence", pid + ".report.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, "w") as fh:
        for o in viol + kfs + und + held:
            fh.write("%-9s %s | %s | %s\n" % (o.status, o.rule, o.what, o.where))
            if o.data and o.data.get("term") and o.status == "violated":
                fh.write("          value number: %s\n" % o.data["term"])
            if o.data and o.status == "violated":
                for f in o.data.get("functions", []):
                    fh.write("          expands %s\n" % f)
    rules = {}
    for o in obs:
        c = rules.setdefault(o.rule, {"held": 0, "violated": 0, "undecided": 0})
        c[o.status] += 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "static analysis of the type-checked program; obligations are decided on gated value numbers, effect "
                             "summaries and types extracted from the current headers. Undecided obligations are listed, not counted as held.",
              "obligations": len(obs), "held": len(held), "violated": len(viol), "known_findings": len(kfs), "undecided": len(und),
              "rules": rules, "functions_analysed": len(ctx.analysed), "functions": sorted(ctx.analysed)[:400],
              "proved_by_normal_form": sum(1 for o in held if o.data and o.data.get("verdict") == "valid"),
              "agreed_under_random_interpretation": sum(1 for o in held if o.data and o.data.get("verdict") == "agreed"),
              "held_obligations": [("%s: %s @ %s" % (o.rule, o.what, o.where))[:300] for o in held][:500],
              "undecided_obligations": [("%s: %s @ %s" % (o.rule, o.what, o.where))[:300] for o in und],
              "frontend_rewrites": ctx.H.rewrites},
          "assumptions": ["arithmetic is over the reals/integers (no rounding, overflow or NaN)",
                          "distinct parameters of a law do not alias", "standard-library calls behave as modelled in ffsa/stdmodel.py"],
          "violations": [{"rule": o.rule, "where": o.where, "what": o.what} for o in viol], "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d held, %d undecided, %d functions analysed, %.1f s" % (pid, len(obs), len(held), len(und), len(ctx.analysed), time.time() - t0))
    if "-v" in argv:
        for o in und:
            print("  UNDECIDED %s | %s | %s" % (o.rule, o.what[:400], o.where[:200]))
    for o in kfs:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, o.key)]["what"]))
    for o in viol:
        print("  %s | %s | %s" % (o.rule, o.what[:600], o.where[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    return 1 if viol else 0
