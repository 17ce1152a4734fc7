#!/usr/bin/env python3
"""Development aid (no check uses it): systematic mutants of the functions the laws expand; lists the survivors.

  mutate.py map OUT.json                      which law expands which function (clean tree), and how long it takes
  mutate.py run MAP.json OUT.jsonl [file-substring] [max per function]
The mutants are made in the front end's scratch copy of the headers, never in /repo.
"""
import concurrent.futures as cf, glob, json, multiprocessing as mp, os, random, re, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(50000)
from ffsa.front import Headers, HERE, AnalysisBroken, build_tool
from ffsa.prog import Prog
from ffsa import laws


def load(H, name, once=False):
    if once:
        path = os.path.join(HERE, "laws", name + ".cpp")
        ok, err = H.syntax(path, "serial", ["-fno-access-control", "-I" + os.path.join(HERE, "witness")])
        if not ok:
            raise AnalysisBroken(err)
        P = Prog(H.extract(path, "serial", ["-fno-access-control", "-I" + os.path.join(HERE, "witness")]), H.root)
        P.law_path, P.dropped = path, {}
        return P
    lf = laws.LawFile(H, os.path.join(HERE, "laws", name + ".cpp"))
    P = Prog(lf.data, H.root)
    P.law_path, P.dropped = lf.path, lf.dropped
    return P


class TO(Exception):
    pass


def _al(*a):
    raise TO()


def limited(P, f, s):
    signal.signal(signal.SIGALRM, _al)
    signal.alarm(s)
    try:
        return laws.run_law(P, f)
    except TO:
        return {"law": f["q"].split("::")[-1], "verdict": "timeout", "detail": ""}
    finally:
        signal.alarm(0)


def endline(path, a):
    """the line of the brace that closes the first brace opened at or after line a"""
    d, seen = 0, False
    for n, l in enumerate(open(path).read().split("\n")[a - 1:]):
        l = re.sub(r'"[^"]*"|//.*', "", l)
        for c in l:
            if c == "{":
                d, seen = d + 1, True
            elif c == "}":
                d -= 1
                if seen and d == 0 and not l.lstrip().startswith((",", ":")):
                    return a + n
            elif c == ";" and not seen:
                return a + n
    return a


def mapone(name):
    H = Headers()
    out = []
    try:
        P = load(H, name)
        for f in laws.laws_in(P):
            t = time.time()
            r = limited(P, f, 300)
            out.append({"file": name, "law": r["law"], "verdict": r["verdict"], "s": time.time() - t, "functions": r.get("functions", [])})
        fl = {}
        for f in P.fns.values():
            if f.get("body") and "/ffcl/" in "/" + P.files[f["file"]]:
                fl["%s (%s)" % (f["q"], P.where(f))] = [H.rel(P.files[f["file"]]) if os.path.isabs(P.files[f["file"]]) else P.files[f["file"]], f["line"], 0]
        return out, fl
    finally:
        H.close()


SUBS = [(r"(?<![<\-=])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
        (r"&&", "||"), (r"\|\|", "&&"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"),
        (r"\+=", "-="), (r"-=", "+="), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\bleft_\b", "right_"), (r"\bright_\b", "left_"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bmin_element\b", "max_element"), (r"\bmax_element\b", "min_element"),
        (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\b(\w+)_first\b", r"\1_last"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
        (r"\bif \((.*)\) \{", r"if (!(\1)) {"), (r"\bif \((.*)\) \{", r"if (true) {"), (r"\bbegin\(\)", "begin() + 1"), (r"\bend\(\)", "end() - 1"), (r"\? (.*) : (.*);", r"? \2 : \1;"),
        (r"\bsize\(\)", "size() - 1"), (r"(\w+)\((\w+), (\w+)\)", r"\1(\3, \2)"), (r"\b(\w+)_1\b", r"\1_2"), (r"\b(\w+)_2\b", r"\1_1"),
        (r"^(\s*)((?!return|const auto|auto|using|static_assert|for|if|else|case)[^;{}]*;)\s*$", r"\1;"), (r"\bstd::abs\(", "("), (r"\bstd::sqrt\(", "("), (r"\binfinity\b", "epsilon")]


def mutants(path, a, b):
    lines = open(path).read().split("\n")
    for n in range(a - 1, min(b + 1, len(lines))):
        l = lines[n]
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") or "throw" in s or "static_assert" in s or s.startswith("using") or "assert" in s or "cout" in s or s == "return *this;" or "printf" in s or "ignore_param" in s:
            continue
        seen = set()
        for p, r in SUBS:
            for m in re.finditer(p, l):
                new = l[:m.start()] + m.expand(r) + l[m.end():]
                if new != l and new not in seen:
                    seen.add(new)
                    yield n, new


def one(job):
    rel, n, new, todo = job
    H = Headers()
    try:
        p = os.path.join(H.tmp, rel)
        lines = open(p).read().split("\n")
        old = lines[n]
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        res = {"file": rel, "line": n + 1, "old": old.strip(), "new": new.strip(), "laws": {}, "status": "survived"}
        units = {}
        for name, law in todo:
            if name not in units:
                try:
                    units[name] = load(H, name, True)
                except AnalysisBroken as e:
                    units[name] = None
                    res["status"] = "nocompile"
                    return res
                if any(("error" in v or True) for v in units[name].dropped.values()) and units[name].dropped:
                    res["status"] = "nocompile"
                    return res
            P = units[name]
            fs = [f for f in laws.laws_in(P) if f["q"].split("::")[-1] == law]
            if not fs:
                continue
            try:
                r = limited(P, fs[0], 60)
            except Exception as e:
                res["laws"][law] = "EXC " + str(e)[:200]
                continue
            res["laws"][law] = r["verdict"]
            if r["verdict"] == "refuted":
                res["status"] = "killed"
                return res
        if any(v not in ("valid", "agreed") for v in res["laws"].values()):
            res["status"] = "undecided"
        return res
    except Exception as e:
        return {"file": rel, "line": n + 1, "new": new.strip(), "status": "EXC " + str(e)[:300]}
    finally:
        H.close()


def main():
    build_tool()
    if sys.argv[1] == "map":
        names = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HERE, "laws", "*.cpp")))
        with cf.ProcessPoolExecutor(8) as ex:
            rs = list(ex.map(mapone, names))
        fl = {}
        for _, x in rs:
            fl.update(x)
        json.dump({"laws": [y for x, _ in rs for y in x], "fns": fl}, open(sys.argv[2], "w"), indent=0)
        return
    M = json.load(open(sys.argv[2]))
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    cap = int(sys.argv[5]) if len(sys.argv) > 5 else 40
    byfn = {}
    for l in M["laws"]:
        if l["verdict"] not in ("valid", "agreed") or l["s"] > 45:
            continue
        for f in l["functions"]:
            byfn.setdefault(f, []).append(l)
    jobs, seen = [], set()
    rnd = random.Random(1)
    for f, (rel, a, b) in sorted(M["fns"].items()):
        if f not in byfn or sub not in rel + ":" + f:
            continue
        ls = sorted(byfn[f], key=lambda l: (len(l["functions"]), l["s"]))
        todo, files = [], []
        for l in ls:
            if l["file"] not in files and len(files) < 3:
                files.append(l["file"])
            if l["file"] in files and len(todo) < 12:
                todo.append((l["file"], l["law"]))
        todo.sort(key=lambda x: files.index(x[0]))
        src = rel if rel.startswith("include") else "include/" + rel
        b = endline(os.path.join("/repo", src), a)
        ms = [(n, new) for n, new in mutants(os.path.join("/repo", src), a, b) if (rel, n, new) not in seen]
        if len(ms) > cap:
            ms = rnd.sample(ms, cap)
        for n, new in ms:
            seen.add((rel, n, new))
            jobs.append((src, n, new, todo))
    print(len(jobs), "mutants", flush=True)
    t0 = time.time()
    cnt = {}
    with open(sys.argv[3], "w") as fh, cf.ProcessPoolExecutor(8, max_tasks_per_child=20, mp_context=mp.get_context("spawn")) as ex:
        for r in ex.map(one, jobs):
            k = r["status"][:9]
            cnt[k] = cnt.get(k, 0) + 1
            fh.write(json.dumps(r) + "\n")
            fh.flush()
    print(cnt, "%.0f s" % (time.time() - t0))


if __name__ == "__main__":
    main()
