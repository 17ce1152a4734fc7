"""Laws: boolean C++ functions over the public API whose value number has to be `true`.

A law file is type-checked against the current headers; each law's gated value number is computed (library calls are
expanded from their current definitions) and decided by ffsa.decide.  Nothing is executed.
  law_<ID>_name  : the returned value number must be true on every path that returns
  lawt_<ID>_name : the disjunction of the path conditions of all exceptions must equal the returned value number
"""
import concurrent.futures as cf, multiprocessing as mp, os, re, signal, sys
from . import decide
from .ev import Ev, Limit
from .term import *
from .stdmodel import VOID
from .front import AnalysisBroken, ERR

NAME = re.compile(r"\b(lawt?)_([A-Z][0-9]{2,3})_(\w+)")


def split_chunks(text):
    """[(start_line, end_line, name)] of the `//@` delimited chunks"""
    lines = text.split("\n")
    starts = [i for i, l in enumerate(lines) if l.startswith("//@")]
    out = []
    for j, i in enumerate(starts):
        e = starts[j + 1] if j + 1 < len(starts) else len(lines)
        out.append((i + 1, e, lines[i][3:].strip()))
    return lines, out


class LawFile:
    def __init__(self, headers, path, config="serial", extra=()):
        self.path = path
        self.dropped = {}
        src = open(path).read()
        lines, chunks = split_chunks(src)
        dead, gone = set(), set()
        scratch = os.path.join(headers.tmp, "law-" + os.path.basename(path))
        extra = list(extra) + ["-fno-access-control", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(path))), "witness")]
        for _ in range(len(chunks) + 12):
            cur = list(lines)
            for c in dead:
                for k in range(chunks[c][0] - 1, chunks[c][1]):
                    cur[k] = ""
            for k in gone:
                cur[k] = ""
            open(scratch, "w").write("\n".join(cur))
            ok, err = headers.syntax(scratch, config, extra)
            if ok:
                break
            hit = set()
            for m in re.finditer(re.escape(scratch) + r":(\d+):\d+: (.*)", err):
                ln = int(m.group(1))
                for ci, (a, b, n) in enumerate(chunks):
                    if a <= ln <= b and ci not in dead:
                        hit.add(ci)
                        self.dropped.setdefault(n, m.group(2))
                if ln - 1 not in gone and not any(a <= ln <= b for a, b, n in chunks) and not cur[ln - 1].lstrip().startswith("#"):
                    gone.add(ln - 1)
                    hit.add(None)
                    self.dropped.setdefault("line %d" % ln, m.group(2))
            hit.discard(None) if len(hit) > 1 else None
            if None in hit:
                continue
            if not hit:
                raise AnalysisBroken("law file %s does not type-check:\n%s" % (path, err[-3000:]))
            dead |= hit
        self.data = headers.extract(scratch, config, extra)


def _draw_below_weights(ev, fn, this, args):
    n = ev.st.env.get(fld(this, "n_weights_"))
    if n is None:
        return NotImplemented
    d = mk("draw", mk("dist", "int", ZERO, sub(n, ONE)), ev.fresh(), *[l.k for l in ev.loopstack])
    mark_nonneg(d)
    return d


def _offered(ev, fn, this, args):
    """accumulate an uninterpreted weight of each (index, distance) offered to the buffer"""
    vals = [ev.load(x, p["t"]) if k == "loc" else x for (k, x), p in zip(args, fn["params"])]
    g = fld(this, "#ghost")
    ev.store(g, add(ev.load(g), mk("uf", ONE, *vals)))
    return VOID()


def _root(ev, fn, this, args):
    (k, x), p = args[0], fn["params"][0]
    return mark_nn(mk("uf", const(2), ev.load(x, p["t"]) if k == "loc" else x))


# assume/guarantee: what one component's laws assume about another one (established by that one's own property)
CONTRACTS = {"K04": {"ffcl::common::math::random::VosesAliasMethod::sample": _draw_below_weights,
                     "ffcl::common::math::random::VosesAliasMethod::init": lambda ev, fn, this, args: VOID()},
             "N02": {"ffcl::search::buffer::StaticBuffer::update_static_buffers": _offered},
             "N02_union": {"ffcl::datastruct::UnionFind::find": _root}, "N02_update_union": {"ffcl::datastruct::UnionFind::find": _root}}


def _vals(ev, fn, args):
    return [ev.load(x, p["t"]) if k == "loc" else x for (k, x), p in zip(args, fn["params"])]


def _axis(ev, fn, this, args):
    """the axis chosen for a node is some axis, a function of the node's range and depth"""
    a = [ev.load(x, p["t"]) if k == "loc" else x for (k, x), p in list(zip(args, fn["params"]))[:6]]
    return mark_nn(mk("uf", const(3), a[0], a[1], a[5]))


def _median_split(ev, fn, this, args):
    """a range is split in the elements before some position, the element there and the elements after it"""
    a = _vals(ev, fn, args)
    c = mark_nn(mk("uf", const(4), a[0], a[1], a[5]))
    m = add(a[0], c)
    pr = lambda x, y: agg("tup", ("0", "1"), [x, y])
    return agg("tup", ("0", "1", "2", "3"), [c, pr(a[0], m), pr(m, add(m, ONE)), pr(add(m, ONE), a[1])])


def _subtree(ev, fn, this, args):
    """the recursive call returns a new node for the range, depth and bound it was given"""
    a = [ev.load(x, p["t"]) if k == "loc" else x for (k, x), p in list(zip(args, fn["params"]))[:4]]
    kb, b = args[4]
    new = mk("new", "subtree", ev.fresh())
    P = fn["P"]
    rt = P.rec_of(fn["ret"])
    nt = rt["targs"][0] if rt and rt.get("targs") else None
    bt = fn["params"][4]["t"]
    if nt is None or kb != "loc":
        return NotImplemented
    ev.objtype[new] = nt
    st = ev.st.env
    st[fld(new, "indices_range_")] = agg("tup", ("0", "1"), [a[0], a[1]])
    st[fld(new, "#ghost")] = a[3]
    for n in ("left_", "right_", "parent_"):
        st[fld(new, n)] = ZERO
    st[fld(new, "bound_")] = ev.copy_obj(ev.ident(b), P.strip(bt))
    return addr(new)


KP = "ffcl::datastruct::kdtree::policy::"
CONTRACTS["T01_build"] = {"call:" + KP + "AxisSelectionPolicy::operator()": _axis, "call:" + KP + "SplittingRulePolicy::operator()": _median_split,
                          "call:ffcl::datastruct::KDTree::build": _subtree}

def _kth(ev, fn, this, args):
    """the selection returns the position asked for"""
    a = _vals(ev, fn, args)
    m = add(a[0], a[5])
    return agg("tup", ("0", "1"), [m, add(m, ONE)])


CONTRACTS["T01_split"] = {"ffcl::common::algorithms::quickselect": _kth}
CONTRACTS["T01_root"] = {"call:" + KP + "AxisSelectionPolicy::operator()": _axis, "ffcl::datastruct::KDTree::build": _subtree}

def ptr(v):
    if v.op == "ufp":
        mark_ptr(v)
    return v


def _gadd(ev, loc, v):
    g = fld(ev.ident(loc), "#ghost")
    ev.store(g, add(ev.load(g), v))


def _here(this):
    return this.a[0] if this.op == "deref" else addr(this)


def _scan(ev, fn, this, args):
    _gadd(ev, this, mk("uf", const(5), *_vals(ev, fn, args)))
    return VOID()


def _child(ev, fn, this, args):
    return ptr(mk("ufp", const(12), _here(this), *_vals(ev, fn, args)))


def _sibling(ev, fn, this, args):
    a = [ev.load(x, p["t"]) if k == "loc" else x for (k, x), p in list(zip(args, fn["params"]))[:3]]
    g = ev.load(fld(ev.ident(args[3][1]), "#ghost"))
    return ptr(mk("ufp", const(13), _here(this), *(a + [g])))


def _walk(tag, ret):
    """a traversal step from a node: scans an unknown set of samples that depends on the node, returns a node"""
    def f(ev, fn, this, args):
        (k, x), p = args[0], fn["params"][0]
        n = ev.load(x, p["t"]) if k == "loc" else x
        _gadd(ev, args[1][1], mk("uf", const(tag), n))
        return ptr(mk("ufp", const(tag), n)) if ret else VOID()
    return f


TT = "ffcl::search::TreeTraverser::"
KN = "ffcl::datastruct::KDNodeView::"
CONTRACTS["N03_descend"] = {"ffcl::search::buffer::StaticBuffer::partial_search": _scan, KN + "select_closest_child": _child,
                            "call:" + TT + "recursive_search_to_leaf_node": _walk(6, True)}
CONTRACTS["N03_ascend"] = {KN + "select_sibling_node": _sibling, TT + "single_tree_traversal": _walk(8, False)}
CONTRACTS["N03_traverse"] = {TT + "recursive_search_to_leaf_node": _walk(6, True), TT + "get_parent_node_after_sibling_traversal": _walk(9, True)}
CONTRACTS["N03_search"] = {TT + "single_tree_traversal": _walk(8, False)}
CONTRACTS["U01_merge"] = {"ffcl::datastruct::UnionFind::find": _root}


STUB = re.compile(r"^//! (\w+) (\S+) -> (\w+)", re.M)


def _stub(name):
    """a contract written in the law file itself: a function that takes the object and the arguments"""
    def f(ev, fn, this, args):
        c = [g for g in ev.P.fns.values() if g["q"].split("::")[-1] == name and g.get("body")]
        a = list(args)
        n = len(a) + (1 if this is not None else 0)
        c = [g for g in c if len(g["params"]) == n] or [g for g in c if len(g["params"]) == len(a)]
        if len(c) != 1:
            return NotImplemented
        if len(c[0]["params"]) == len(a) + 1:
            a = [("loc", this)] + a
        if len(c[0]["params"]) != len(a):
            return NotImplemented
        v = ev.inline(c[0], None, a)
        return VOID() if v is None else v
    return f


def contracts_of(pid, nm, path=None):
    out = {}
    for k, v in CONTRACTS.items():
        if k == pid or ("_" in k and (pid + "_" + nm).startswith(k)):
            out.update(v)
    if path:
        for p, q, s in STUB.findall(open(path).read()):
            if (pid + "_" + nm).startswith(p):
                out[q] = _stub(s)
    return out


def _counted(k, f, hits):
    def g(*a):
        v = f(*a)
        if v is not NotImplemented:
            hits.add(k)
        return v
    return g


# contracts whose call site may be absent from a law's code
OPTIONAL = {"draw", "ffcl::common::math::random::VosesAliasMethod::init"}


def _calls(x, out):
    st = [x]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if isinstance(x.get("f"), int):
                out.add(x["f"])
            st.extend(v for k, v in x.items() if k != "P")
        elif isinstance(x, list):
            st.extend(x)
    return out


def moved(ev, k):
    """a contract was not met: has the component boundary moved (recursion became iteration, the helper is gone), or is the
    call just not made?"""
    P, q = ev.P, k.split("call:")[-1]
    used = [P.fns[i] for i in ev.inlined if i in P.fns]
    called = set()
    for f in used:
        _calls(f.get("body"), called)
    if any(P.fns[i]["q"] == q for i in called if i in P.fns):
        return False                # still called, but not on any path the law follows
    if any(f["q"] == q for f in used):
        return True                 # no longer recursive
    n = q.split("::")[-1]
    pat = re.compile(r"(?<![\w.>])(~?\w+::)*" + re.escape(n) + r"\s*\(")
    for d, _, fs in os.walk(os.path.join(P.root, "ffcl")):
        for f in fs:
            if pat.search(re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(d, f), encoding="utf-8", errors="replace").read(), flags=re.S)):
                return False        # still there
    return True


def run_law(P, fn):
    kind, pid, nm = NAME.search(fn["q"]).groups()
    res = {"law": fn["q"].split("::")[-1], "pid": pid, "kind": kind}
    try:
        ev = Ev(P)
        hits = ev.hits = set()
        ev.contracts = {k: _counted(k, f, hits) for k, f in contracts_of(pid, nm, getattr(P, 'law_path', None)).items()}
        ev.run(fn)
    except (Limit, RecursionError) as e:
        res.update(verdict="unknown", detail="summary: %s" % e)
        return res
    used = [P.fns[i] for i in ev.inlined if i in P.fns]
    used = [f for f in used if "/ffcl/" in ("/" + P.files[f["file"]]) and not f["q"].split("::")[-1].startswith("law")]
    res["functions"] = sorted(set("%s (%s)" % (f["q"], P.where(f)) for f in used))
    r = ev.ret
    if r is None:
        res.update(verdict="unknown", detail="no return value")
        return res
    r = truth(r)
    if kind == "lawt":
        thr = [e for e in ev.effects if e.kind == "throw"]
        if any(e.loops for e in thr):
            res.update(verdict="unknown", detail="throw inside a loop")
            return res
        g = lor(*[e.guard() for e in thr]) if thr else FALSE
        r = eq_bool(g, r)
    else:
        # paths that leave through an exception are not returns: the law is about the remaining ones
        thr = [e for e in ev.effects if e.kind == "throw" and not e.loops]
        if thr:
            r = lor(*([r] + [e.guard() for e in thr]))
    # what the exit conditions of loops without a closed form say about the values they leave behind
    have = set(walk(r))
    for pc, f in ev.facts:
        if any(x.op == "post" and x in have for x in walk(f)):
            r = lor(r, land(*(list(pc) + [lnot(f)])))
    # preconditions: the early `return true` of the law
    pre = [lnot(land(*pc)) for pc, v, st in ev.rets if v is not None and truth(v) is TRUE]
    try:
        d = decide.prove(r, pre=land(*pre) if pre else TRUE)
    except RecursionError:
        d = ("unknown", "recursion")
    res["verdict"] = d[0]
    if d[0] == "refuted":
        res["detail"] = "false when " + ", ".join("%s=%s" % (show(t, 6), v) for t, v in list(d[1].used.items())[:14])
        res["term"] = show(r, 9)[:1500]
        unmet = [k for k in ev.contracts if k not in ev.hits and k not in OPTIONAL and moved(ev, k)]
        if unmet:
            # the component boundary the law is stated over is not where it was: nothing can be concluded
            res.update(verdict="unknown", detail="never calls " + ", ".join(sorted(unmet)))
    elif d[0] in ("unknown", "agreed"):
        res["detail"] = str(d[1])[:1200]
        if d[0] == "agreed":
            from . import interp
            res["stats"] = dict(interp.STATS)
    else:
        res["detail"] = ""
    return res


def run_access(P, fn):
    """every element access the expanded code of a law makes into a container of known length stays below the length"""
    ev = Ev(P)
    try:
        ev.run(fn)
    except (Limit, RecursionError):
        return []
    out, seen = [], {}
    for f, line, pc, off, n, loops in ev.accesses:
        if f is None or "/ffcl/" not in "/" + P.files[f["file"]]:
            continue
        pc = pc + tuple(lt(l.k, l.trip, True) for l in loops if l.trip is not None)
        g = lor(*([lnot(x) for x in pc] + [land(le(ZERO, off, True), lt(off, n, True))]))
        sk = {}
        g = subst(g, lambda t: sk.setdefault(t, mark_nn(mk("sk", "k", str(t.a)))) if t.op == "k" else None)
        key = (f["id"], line, g)
        if key in seen:
            continue
        seen[key] = 1
        try:
            d = decide.prove(g)
        except RecursionError:
            d = ("unknown", "recursion")
        r = {"where": "%s (%s)" % (f["q"], P.where(f, line)), "verdict": d[0], "law": fn["q"].split("::")[-1],
             "what": "index %s of %s elements" % (show(off, 5), show(n, 5))}
        if d[0] == "refuted":
            r["detail"] = "out of range when " + ", ".join("%s=%s" % (show(t, 6), v) for t, v in list(d[1].used.items())[:12])
        else:
            r["detail"] = "" if d[0] == "valid" else str(d[1])[:300]
        out.append(r)
    return out


_JOB = None


class _Timeout(Exception):
    pass


def _alarm(*a):
    raise _Timeout()


def _one(i):
    P, fns, limit = _JOB
    sys.setrecursionlimit(50000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return run_law(P, fns[i])
    except _Timeout:
        return {"law": fns[i]["q"].split("::")[-1], "verdict": "unknown", "detail": "no decision within %d s" % limit}
    finally:
        signal.alarm(0)


def run_all(P, fns, limit):
    """the laws of one file, decided in parallel (one forked worker per core)"""
    global _JOB
    if not fns:
        return []
    _JOB = (P, fns, limit)
    with cf.ProcessPoolExecutor(min(8, len(fns)), mp_context=mp.get_context("fork")) as ex:
        return list(ex.map(_one, range(len(fns))))


def eq_bool(a, b):
    return lor(land(a, b), land(lnot(a), lnot(b)))


def laws_in(P, pid=None):
    out = []
    for f in P.fns.values():
        m = NAME.search(f["q"])
        if m and "body" in f and (pid is None or m.group(2) == pid) and NAME.fullmatch(f["q"].split("::")[-1]):
            out.append(f)
    return sorted(out, key=lambda f: f["line"])
