"""Decision of a boolean value number: case split over its comparison atoms with a difference-bound domain.

A law holds when its value number is `true` under every consistent ordering of the quantities it compares.  It is refuted
only by an ordering that is consistent (difference bounds) and for which actual values of the atoms can be exhibited;
anything else is reported as undecided.
"""

from fractions import Fraction
from .term import *
from . import interp

UNKNOWN = {"post", "phi", "havoc", "undef", "call", "callref", "opaque", "trip", "k", "unary", "refobj?", "trait", "sizeof"}


def not_understood(t):
    for x in walk(t):
        if x.op in UNKNOWN:
            return x
        if x.op == "bool" and x.a[0] in ("someiter", "caught", "has", "inserted"):
            return x
        if x.op == "ld" and x.a[1] != 0:
            return x
        if x.op == "bool" and x.a and isinstance(x.a[0], str) and len(x.a) == 2 and isinstance(x.a[1], int):
            return x
    return None


def nonneg_unit(u):
    return u.op in ("size", "abs", "sqrt", "bv", "k", "idiv") or (u.op == "sum" and False)


class DBM:
    """difference bounds over units; constraint x - y <= c (strict flag)"""

    def __init__(self):
        self.g = []

    def feasible(self):
        nodes = {None}
        for x, y, c, s in self.g:
            nodes.add(x)
            nodes.add(y)
        for u in list(nodes):
            if u is not None and nonneg_unit(u):
                self.g.append((None, u, Fraction(0), False)) if (None, u, Fraction(0), False) not in self.g else None
        dist = {n: (Fraction(0), 0) for n in nodes}
        for it in range(len(nodes) + 1):
            ch = False
            for x, y, c, s in self.g:
                d = dist[y]
                nd = (d[0] + c, d[1] - (1 if s else 0))
                if nd < dist[x]:
                    dist[x] = nd
                    ch = True
            if not ch:
                return True
        return False


def unit_form(d):
    """polynomial -> (x, y, c): d == x - y + c with x, y units or None; scaled to be primitive; returns (x,y,c,scale)"""
    p = poly(d)
    c0 = p.pop((), Fraction(0))
    ms = list(p.items())
    if not ms:
        return None
    if len(ms) == 1:
        (m, c), = ms
        k = abs(c)
        u = unpoly({m: Fraction(1)})
        return (u, None, c0 / k) if c > 0 else (None, u, c0 / k)
    if len(ms) == 2 and ms[0][1] == -ms[1][1]:
        k = abs(ms[0][1])
        (m1, c1), (m2, c2) = ms
        u1, u2 = unpoly({m1: Fraction(1)}), unpoly({m2: Fraction(1)})
        return (u1, u2, c0 / k) if c1 > 0 else (u2, u1, c0 / k)
    # composite unit, primitive and sign-normalised
    lead = max(p, key=lambda m: (len(m), [y.id for y in m]))
    k = p[lead]
    q = unpoly({m: c / abs(k) for m, c in p.items()})
    if k < 0:
        q = neg(q)
        return (None, q, c0 / abs(k))
    return (q, None, c0 / abs(k))


def atoms_bool(t, out=None):
    out = [] if out is None else out
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("and", "or", "not"):
            st.extend(x.a)
        elif x.op == "ite":
            st.extend(x.a)
        elif x.op in ("lt", "eq", "bool"):
            out.append(x)
            # gates nested inside compared values
            for y in walk(x):
                if y.op == "ite":
                    st.append(y.a[0])
        else:
            for y in kids(x):
                st.append(y)
    return out


def pick(t):
    """an atom to split on: innermost gate condition first"""
    for x in walk(t):
        if x.op == "ite":
            c = x.a[0]
            while True:
                inner = [y for y in walk(c) if y.op == "ite" and y is not c]
                inner = [y for y in inner]
                if not inner:
                    break
                c = inner[0].a[0]
            for y in walk(c):
                if y.op in ("lt", "eq", "bool") and not has_bound(y):
                    if not any(z.op == "ite" for z in walk(y)):
                        return y
    for x in walk(t):
        if x.op in ("lt", "eq", "bool"):
            if not has_bound(x) and not within_bound(t, x):
                return x
    return None


def has_bound(t):
    return bool(free_levels(t))


def within_bound(t, x):
    return False


class Budget(Exception):
    pass


def prove(r, budget=60000, refute=True, pre=TRUE):
    if r is TRUE:
        return ("valid",)
    r = unify_exists(r)
    if r is TRUE:
        return ("valid",)
    state = {"n": 0}
    bad = []

    def go(t, lits, dbm, sub_):
        state["n"] += 1
        if state["n"] > budget:
            raise Budget()
        if t is TRUE:
            return
        a = None
        if t is not FALSE:
            a = pick(t)
        if a is None:
            if t is FALSE:
                bad.append((list(lits), None))
            else:
                bad.append((list(lits), t))
            if len(bad) > 400:
                raise Budget()
            return
        for val in (True, False):
            nl = lits + [(a, val)]
            g = list(dbm)
            rep = None
            if a.op == "lt":
                uf = unit_form(a.a[0])
                if uf is not None:
                    x, y, c = uf
                    if val:       # x - y + c < 0
                        g.append((x, y, -c, True))
                    else:         # x - y + c >= 0  ->  y - x <= c
                        g.append((y, x, c, False))
            elif a.op == "eq":
                uf = unit_form(a.a[0])
                if uf is not None and val:
                    x, y, c = uf
                    g.append((x, y, -c, False))
                    g.append((y, x, c, False))
                    # substitute the unit
                    for u, w, sgn in ((x, y, -1), (y, x, 1)):
                        if u is not None and u.op not in ("poly", "c", "inf"):
                            other = w if w is not None else ZERO
                            if u not in set(walk(other)):
                                rep = (u, add(other, mk("c", c * sgn)))
                                break
            d = DBM()
            d.g = g
            if not d.feasible():
                continue
            # strict disequalities
            ok = True
            for (b, bv_) in nl:
                if b.op == "eq" and bv_ is False:
                    uf = unit_form(b.a[0])
                    if uf is not None:
                        x, y, c = uf
                        e1, e2 = DBM(), DBM()
                        e1.g = g + [(x, y, -c, True)]
                        e2.g = g + [(y, x, c, True)]
                        if not e1.feasible() and not e2.feasible():
                            ok = False
                            break
            if not ok:
                continue
            tv = TRUE if val else FALSE
            nt = subst(t, lambda z: tv if z is a else None)
            if rep is not None:
                u, w = rep
                nt = subst(nt, lambda z: w if z is u else None)
            go(nt, nl, g, sub_)

    blown = False
    try:
        go(r, [], [], {})
    except Budget:
        blown = True
    if not bad and not blown:
        return ("valid",)
    if not refute:
        return ("unknown", "")
    guided = []
    for lits, resid in bad[:24]:
        g = {}
        for a, v in lits:
            if v and a.op == "eq":
                uf = unit_form(a.a[0])
                if uf is None:
                    continue
                x, y, c = uf
                for u, w, sgn in ((x, y, -1), (y, x, 1)):
                    if u is not None and u.op in ("ld", "arg", "size") and u not in g:
                        g[u] = add(w if w is not None else ZERO, mk("c", c * sgn))
                        break
        guided.append(g)
    eqs = {}
    for a in conjuncts(pre):
        if a.op == "eq":
            uf = unit_form(a.a[0])
            if uf is not None:
                x, y, c = uf
                for u, w, sgn in ((x, y, -1), (y, x, 1)):
                    if u is not None and u.op in ("size", "arg", "ld") and u not in eqs:
                        eqs[u] = add(w if w is not None else ZERO, mk("c", c * sgn))
                        break
    for g in guided:
        for k, v in eqs.items():
            g.setdefault(k, v)
    bounds, regions = pre_bounds(pre)
    it, ok, unk = interp.refute(r, guided, pre=pre, over0=eqs, bounds=bounds, regions=regions)
    if it is not None:
        return ("refuted", it)
    if ok and unk is None:
        return ("agreed", ok)
    return ("unknown", unk or "no interpretation")


def pre_bounds(pre):
    """bounds the preconditions put on leaves: {leaf: (least value, term it is below)}, {array: term its elements are below}"""
    lo, hi, regions = {}, {}, {}

    def below(x, y, c):                  # x - y + c < 0
        if x is not None and x.op in ("ld", "arg", "size", "sk"):
            if has_bound(x):
                if x.op == "ld" and x.a[0].op == "deref" and (y is None or not has_bound(y)):
                    b = base_of(x.a[0].a[0])[0]
                    if b is not None:
                        regions.setdefault(b, sub(y if y is not None else ZERO, mk("c", c)))
            elif y is None or (y.op in ("ld", "arg", "size", "sk") and not has_bound(y)):
                hi.setdefault(x, sub(y if y is not None else ZERO, mk("c", c)))
        if x is None and y is not None and y.op in ("ld", "arg", "size", "sk") and not has_bound(y):
            k = int(c) + 1               # c < y
            lo[y] = max(lo.get(y, 0), k)

    def atom(a, neg_):
        if a.op == "lt":
            uf = unit_form(a.a[0])
            if uf is None:
                return
            x, y, c = uf
            if neg_:
                below(y, x, -c - 1)      # y - x - c - 1 < 0 over the integers
            else:
                below(x, y, c)
        elif a.op == "eq" and neg_:
            uf = unit_form(a.a[0])
            if uf is not None and uf[2] == 0 and (uf[0] is None or uf[1] is None):
                u = uf[0] if uf[0] is not None else uf[1]
                if u.op in ("ld", "arg", "size") and not has_bound(u):
                    lo[u] = max(lo.get(u, 0), 1)

    for a in conjuncts(pre):
        if a.op == "not" and a.a[0].op == "bool" and a.a[0].a[0] == "exists" and len(a.a[0].a) == 3:
            for x in conjuncts(lnot(a.a[0].a[2])):
                atom(*((x.a[0], True) if x.op == "not" else (x, False)))
        else:
            atom(*((a.a[0], True) if a.op == "not" else (a, False)))
    return {x: (lo.get(x, 0), hi.get(x)) for x in set(lo) | set(hi)}, regions


def conjuncts(t):
    if t.op == "and":
        for x in t.a:
            yield from conjuncts(x)
    elif t.op == "not" and t.a[0].op == "or":
        for x in t.a[0].a:
            yield from conjuncts(lnot(x))
    else:
        yield t


def unify_exists(r):
    """identify quantified conditions over the same range whose bodies are equivalent"""
    ex = []
    for x in walk(r):
        if x.op == "bool" and x.a and x.a[0] == "exists" and len(x.a) == 3 and not has_bound(x):
            ex.append(x)
    rep = {}
    for i, x in enumerate(ex):
        for y in ex[:i]:
            if y in rep:
                continue
            if x.a[1] is y.a[1] and x.a[2] is not y.a[2]:
                b1 = subst(x.a[2], lambda t: mk("sk", t.a[0]) if t.op == "bv" else None)
                b2 = subst(y.a[2], lambda t: mk("sk", t.a[0]) if t.op == "bv" else None)
                if prove(eq(truth(b1), truth(b2)), budget=3000, refute=False)[0] == "valid":
                    rep[x] = y
                    break
    if rep:
        r = subst(r, lambda t: rep.get(t))
    return r
