"""C04: what one edge of the sorted spanning tree does to the forest of a single-linkage tree.

The stores of the loop that links nodes are taken from the effect summary of the builder (sets are a contract) and applied, under
random interpretations of the terms, to an abstract heap; the heap has to be the one the definition gives.
"""
import random
from fractions import Fraction
from .core import rule, Ob
from .ev import Ev, Limit
from .interp import Interp, Skip, Unknown
from .term import *
from . import laws


class Cells(Interp):
    """memory read at the head of the iteration: every cell holds a value of its own"""

    def _ev(self, t, env):
        if t.op == "k":
            return self.kval
        if t.op == "ld" and (t.a[1] != 0 or local(t.a[0])):
            return self.cell(self.loc(t.a[0], env))
        return Interp._ev(self, t, env)

    def cell(self, l):
        # sizes are small, one included: a node may be a single sample
        if l[0] == "f" and l[2] == "cluster_size_":
            return Fraction(random.Random("%s %s" % (self.seed, self.alloc(("size", l)))).randint(1, 3))
        return self.alloc(("cell", l))


def local(l):
    return any(x.op in ("new", "var") for x in walk(l))


def one_version(terms):
    seen = {}
    for t in terms:
        for x in walk(t):
            if x.op == "ld" and seen.setdefault(x.a[0], x.a[1]) != x.a[1]:
                return False
    return True


@rule("C04", "one edge joins two nodes")
def build_step(ctx):
    P = ctx.law_unit("linkage")
    fs = [f for f in P.fns.values() if f["q"].split("::")[-1] == "eff_C04_effects" and f.get("body")]
    if not fs:
        yield Ob("undecided", None, "laws/linkage.cpp", "the driver does not type-check", key="C04:driver")
        return
    ev = Ev(P)
    hits = ev.hits = set()
    ev.contracts = {k: laws._counted(k, f, hits) for k, f in laws.contracts_of("C04", "effects", P.law_path).items()}
    try:
        ev.run(fs[0])
    except (Limit, RecursionError) as e:
        yield Ob("undecided", None, "SingleLinkageClusterTree::build", "no summary: %s" % e, key="C04:summary")
        return
    used = [P.fns[i] for i in ev.inlined if i in P.fns]
    ctx.analysed.update("%s (%s)" % (f["q"], P.where(f)) for f in used if "/ffcl/" in "/" + P.files[f["file"]])
    where = next(("%s (%s)" % (f["q"], P.where(f)) for f in used if f["q"].endswith("SingleLinkageClusterTree::build")), "SingleLinkageClusterTree::build")
    und = lambda w: Ob("undecided", None, where, w, key="C04:step")
    link = [e for e in ev.effects if e.kind == "store" and e.loc.op == "fld" and e.loc.a[1] in ("left_", "right_", "parent_") and e.loops and e.val is not ZERO]
    if not link or ev.ret is None or ev.ret.op != "agg":
        yield und("no link between nodes is stored in a loop")
        return
    lp = link[0].loops[-1]
    step = [e for e in ev.effects if e.loops and lp in e.loops]
    if any(e.loops[-1] is not lp for e in step) or any(e.loops[-1] is not lp for e in link):
        yield und("nested loops")
        return
    names = ("representative_", "level_", "cluster_size_", "left_", "right_", "parent_")
    nodes = lambda l: l.op == "fld" and l.a[1] in names
    # the map from representatives to nodes: what the new node is stored in
    maps = {base_of(e.loc.a[0].a[0])[0] for e in step if e.kind == "store" and e.loc.op == "fld" and e.loc.a[1] == "1" and e.loc.a[0].op == "deref"}
    maps = {m.a[0] for m in maps if m is not None and m.op == "begin"}
    if len(maps) != 1:
        yield und("the nodes are not kept in one map")
        return
    M = maps.pop()
    todo = []
    for e in step:
        if e.kind == "store" and (nodes(e.loc) or e.loc.op == "fld" and e.loc.a[1] == "1" and base_of(e.loc.a[0].a[0])[0] is mk("begin", M)):
            todo.append((e.guard(), "store", e.loc, e.val))
        elif e.kind == "cmut" and e.obj is M and e.q == "erase" and len(e.args) == 1 and isinstance(e.args[0], T):
            todo.append((e.guard(), "erase", e.args[0], None))
        elif e.kind == "cmut" and e.obj is M and e.q in ("operator[]", "at", "find"):
            continue
        elif e.kind in ("iret", "swap") or e.kind == "store" and e.loc.op == "var":
            continue
        elif e.kind == "call" or e.kind == "cmut" and e.obj is M:
            yield und("unmodelled effect %s" % e)
            return
    fresh = {e.val.a[0] for e in link if e.val.op == "addr"} | {e.loc.a[0] for e in link if e.loc.a[0].op in ("new", "obj")}
    if len(fresh) != 1:
        yield und("not one new node per edge")
        return
    N = fresh.pop()
    r1, r2, m, w, n, kk = ev.ret.a[2:]
    if not one_version([x for t in todo for x in (t[0], t[2], t[3]) if x is not None]):
        yield und("memory is read again after a write of the same iteration")
        return
    cell = lambda r: deref(add(mk("begin", M), r))
    tried = bad = 0
    joined = apart = 0
    for s in range(400):
        it = Cells((ctx.seed, s), s % 8)
        try:
            it.kval = it.num(kk, {})
            size = it.num(n, {})
            if not it.kval < size:
                continue
            a, b, c = (it.num(x, {}) for x in (r1, r2, m))
            A, B = (it.cell(it.loc(fld(cell(x), "1"), {})) for x in (r1, r2))
            here = it.alloc(("a", it.loc(N, {})))
            heap, mp = {}, {a: A, b: B}
            for g, kind, l, v in todo:
                if not it.truth(g, {}):
                    continue
                if kind == "erase":
                    mp.pop(it.num(l, {}), None)
                elif nodes(l):
                    o = l.a[0]
                    heap[(it.ev(o.a[0], {}) if o.op == "deref" else it.alloc(("a", it.loc(o, {}))), l.a[1])] = it.num(v, {})
                else:
                    mp[it.num(base_of(l.a[0].a[0])[1], {})] = it.num(v, {})
        except Skip:
            continue
        except Unknown as e:
            yield und(str(e))
            return
        tried += 1
        size_of = lambda p: it.cell(("f", ("m", p), "cluster_size_"))
        why = None
        if a == b:
            apart += 1
            if heap or mp != {a: A}:
                why = "an edge inside one cluster changes the nodes"
        else:
            joined += 1
            get = lambda f: heap.get((here, f))
            want = [(get("representative_") == c, "the new node's representative is not the merged set's"), (get("level_") == it.num(w, {}), "the new node's level is not the weight of the edge"),
                    (get("cluster_size_") == size_of(A) + size_of(B), "the new node's size is not the sum of its children's"),
                    (sorted([get("left_") or 0, get("right_") or 0]) == sorted([A, B]), "the new node's children are not the two nodes joined"),
                    (heap.get((A, "parent_")) == here and heap.get((B, "parent_")) == here, "a joined node's parent is not the new node"),
                    (mp == {c: here}, "the clusters left are not the merged one in place of the two joined"),
                    (all(k[0] in (here, A, B) and (k[0] == here or k[1] == "parent_") for k in heap), "another node is changed")]
            why = next((x for ok, x in want if not ok), None)
        if why:
            unmet = [k for k in ev.contracts if k not in ev.hits and laws.moved(ev, k)]
            if unmet:
                yield und("never calls " + ", ".join(unmet))
                return
            yield Ob("violated", None, where, "%s (representatives %s and %s merged into %s)" % (why, a, b, c), key="C04:step")
            return
    if joined < 20 or apart < 3:
        yield und("only %d edges interpreted" % tried)
        return
    yield Ob("held", None, where, "an edge between two clusters makes one node of them, an edge inside a cluster none (%d interpretations of %d effects)" % (tried, len(todo)), key="C04:step")
    # every sample starts as a node of its own
    init = [e for e in ev.effects if e.kind == "store" and e.loops and lp not in e.loops and e.loc.op == "fld" and e.loc.a[1] == "1" and e.loc.a[0].op == "deref" and base_of(e.loc.a[0].a[0])[0] is mk("begin", M)]
    if len(init) != 1 or len(init[0].loops) != 1:
        yield Ob("undecided", None, where, "the initial nodes are not stored by one loop", key="C04:init")
        return
    e = init[0]
    l0 = e.loops[0]
    made = [c for c in ev.effects if c.kind == "call" and c.q == "<make>" and c.loops == e.loops and addr(c.obj) is e.val]
    flds = [c for c in ev.effects if c.kind == "store" and c.loops == e.loops and c.loc.op == "fld" and addr(c.loc.a[0]) is e.val and c.loc.a[1] == "representative_"]
    rep = made[0].args[0] if made and len(made[0].args) == 1 else flds[0].val if flds else None
    key = base_of(e.loc.a[0].a[0])[1]
    if rep is None or l0.trip is None:
        yield Ob("undecided", None, where, "the initial nodes are not understood", key="C04:init")
        return
    ok = rep is key and key is l0.k and l0.trip is add(n, ONE) and land(*[x for x in e.pc if x is not lt(l0.k, l0.trip, True)]) is TRUE
    shifted = key is l0.k and rep is key and l0.trip is not add(n, ONE)
    if ok:
        yield Ob("held", None, where, "one initial node per sample, its own representative", key="C04:init")
    elif shifted or rep is not key and all(x.op in ("k", "poly", "c") for x in (rep, key)):
        yield Ob("violated", None, where, "initial node stored for %s with representative %s, %s times" % (show(key), show(rep), show(l0.trip)), key="C04:init")
    else:
        yield Ob("undecided", None, where, "initial nodes: %s -> %s, %s times" % (show(key), show(rep), show(l0.trip)), key="C04:init")
