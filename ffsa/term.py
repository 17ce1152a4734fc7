"""Hash-consed terms: the value numbers of the analysis.

A term is compared by identity.  Arithmetic is kept in polynomial normal form over opaque atoms (so that re-associating,
re-ordering or factoring an index expression never changes its number), comparisons and boolean connectives are put in a
canonical form (no `>`, `>=`, `<=`, `!=`), and conditionals are gates `ite(c, a, b)`.
"""
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        _tab[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
INF = mk("inf")

_ptr_atoms = set()


def mark_ptr(t):
    _ptr_atoms.add(t)
    return t


def is_ptr_atom(t):
    return t in _ptr_atoms or t.op in ("begin", "addr")


_nn = set()
FL = set()


def nn_set():
    return _nn


def mark_nonneg(t):
    if t.op not in ("poly", "c", "ite", "true", "false", "agg", "inf"):
        _nn.add(t)
    return t


def mark_nn(t):
    mark_nonneg(t)
    return t


def is_nonneg_atom(t):
    return t in _nn or t.op in ("size", "k", "bv", "abs", "sqrt")


def nonneg(t):
    """provably >= 0: non-negative combination of non-negative atoms"""
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    return all(c >= 0 and (all(is_nonneg_atom(x) for x in m) or all(m.count(x) % 2 == 0 for x in m)) for m, c in poly(t).items())


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return neg(INF)
        if v != v:
            return mk("nan")
        return mk("c", Fraction(v))
    return mk("c", Fraction(v))


ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[0] if t.op == "c" else None


# ---- polynomials -----------------------------------------------------------------------------------------------------
def poly(t):
    """term -> dict monomial(tuple of atoms) -> coefficient"""
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "true":
        return {(): Fraction(1)}
    if t.op == "false":
        return {}
    return {(t,): Fraction(1)}


def unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("c", c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda x: (len(x[0]), [y.id for y in x[0]]))))


def _dist(f, a, b):
    """distribute an arithmetic operator over gates (bounded)"""
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return ite(a.a[0], f(a.a[1], b.a[1]), f(a.a[2], b.a[2]))
    return None


def add(a, b):
    r = _dist(add, a, b)
    if r is not None:
        return r
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return unpoly(d)


def scale(a, k):
    return unpoly({m: c * k for m, c in poly(a).items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    r = _dist(mul, a, b)
    if r is not None:
        return r
    pa, pb = poly(a), poly(b)
    d = {}
    if len(pa) * len(pb) > 400:
        return mk("mul", *sorted((a, b), key=lambda t: t.id))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = list(m1 + m2)
            # cancel x * inv(x)
            for x in list(m):
                if x.op == "inv" and x.a[0] in m and x in m:
                    m.remove(x)
                    m.remove(x.a[0])
            m = tuple(sorted(m, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return unpoly(d)


def fdiv(a, b):
    if b.op == "c" and b.a[0] != 0:
        return scale(a, 1 / b.a[0])
    if a is b:
        return ONE
    pb = poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        r = scale(a, 1 / c)
        for x in m:
            r = mul(r, mk("inv", x))
        return r
    return mul(a, mk("inv", b))


def idiv(a, b):
    if b.op == "c" and b.a[0] == 1:
        return a
    if a.op == "c" and b.op == "c" and b.a[0] != 0:
        q = a.a[0] / b.a[0]
        return mk("c", Fraction(int(q)))
    q = exact_quotient(a, b)
    if q is not None:
        return q
    return mk("idiv", a, b)


def exact_quotient(a, b):
    """a / b when b is a product of symbols that divides every monomial of a"""
    pb = poly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    if not mb or cb != 1:
        return None
    out = {}
    for m, c in poly(a).items():
        mm = list(m)
        for x in mb:
            if x not in mm:
                return None
            mm.remove(x)
        out[tuple(mm)] = c
    return unpoly(out)


def isint(t):
    """provably integer-valued"""
    if t.op == "c":
        return t.a[0].denominator == 1
    if t.op == "poly":
        return all(c.denominator == 1 if isinstance(c, Fraction) else True for m, c in t.a[0]) and all(isint(x) for m, c in t.a[0] for x in m)
    if t.op in ("size", "k", "bv", "firstk", "idiv", "imod", "trunc", "trip"):
        return True
    if t.op == "ite":
        return isint(t.a[1]) and isint(t.a[2])
    if t.op in ("atmin", "atmax"):
        return isint(t.a[0]) and isint(sel(t.a[3], "y"))
    if t.op == "sum":
        return isint(t.a[1])
    if t.op == "sel" and t.a[0].op == "bv" and t.a[1] == "k":
        return True
    return t in _nn and t not in FL


def trunc(v):
    return v if isint(v) else mk("trunc", v)


def imod(a, b):
    if a.op == "c" and b.op == "c" and b.a[0] != 0:
        x, y = int(a.a[0]), int(b.a[0])
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r)
    return mk("imod", a, b)


def lead_sign(t):
    d = poly(t)
    m = max((m for m in d if m), key=lambda m: (len(m), [y.id for y in m]), default=())
    return 1 if d.get(m, 0) > 0 else -1


# ---- booleans --------------------------------------------------------------------------------------------------------
def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    if a.op == "and":
        return lor(*[lnot(x) for x in a.a])
    if a.op == "or":
        return land(*[lnot(x) for x in a.a])
    if a.op == "ite":
        return ite(a.a[0], lnot(a.a[1]), lnot(a.a[2]))
    return mk("not", a)


def land(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is not TRUE and y not in s:
                s.append(y)
    for y in s:
        if lnot(y) in s:
            return FALSE
    # absorption: x & (x | y) = x ; x & (!x | y) = x & y
    out = []
    ss = set(s)
    for y in s:
        if y.op == "or":
            if any(z in ss for z in y.a):
                continue
            r = [z for z in y.a if lnot(z) not in ss]
            if len(r) < len(y.a):
                return land(*[w for w in s if w is not y], lor(*r))
        out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.id))


def lor(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "or" else (x,)):
            if y is TRUE:
                return TRUE
            if y is not FALSE and y not in s:
                s.append(y)
    ss = set(s)
    for y in s:
        if lnot(y) in ss:
            return TRUE
    out = []
    for y in s:
        if y.op == "and":
            if any(z in ss for z in y.a):
                continue
            r = [z for z in y.a if lnot(z) not in ss]
            if len(r) < len(y.a):
                return lor(*[w for w in s if w is not y], land(*r))
        out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda t: t.id))


def is_bool(t):
    return t.op in ("true", "false", "not", "and", "or", "lt", "eq") or (t.op == "ite" and is_bool(t.a[1]) and is_bool(t.a[2])) or t.op == "bool"


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is FALSE:
            return land(c, a)
        if b is TRUE:
            return lor(lnot(c), a)
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        return agg(a.a[0], a.a[1], [ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if b.op == "ite":
        c2 = _assume(b.a[0], c, False)
        if c2 is not b.a[0]:
            return ite(c, a, ite(c2, b.a[1], b.a[2]))
    if a.op == "ite":
        c2 = _assume(a.a[0], c, True)
        if c2 is not a.a[0]:
            return ite(c, ite(c2, a.a[1], a.a[2]), b)
    return mk("ite", c, a, b)


def _assume(x, c, val):
    """condition x simplified knowing that c is val"""
    known = set()
    for y in ((c.a if c.op == ("and" if val else "or") else (c,))):
        known.add(y if val else lnot(y))
    def go(t):
        if t in known:
            return TRUE
        if lnot(t) in known:
            return FALSE
        if t.op == "and":
            return land(*[go(y) for y in t.a])
        if t.op == "or":
            return lor(*[go(y) for y in t.a])
        return t
    return go(x)


def lt(a, b, isint=False):
    """a < b (NaN excluded)"""
    if a is b:
        return FALSE
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and (is_const(x.a[1]) or is_const(x.a[2]) or x.a[1] is y or x.a[2] is y):
            if f == 0:
                return ite(x.a[0], lt(x.a[1], b, isint), lt(x.a[2], b, isint))
            return ite(x.a[0], lt(a, x.a[1], isint), lt(a, x.a[2], isint))
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.a[0] < 0 else FALSE
    if nonneg(d):
        return FALSE
    if isint and nonneg(sub(neg(d), ONE)):
        return TRUE
    if isint and lead_sign(d) < 0:
        # d < 0  <=>  !(-d - 1 < 0)
        return mk("not", mk("lt", norm_int(sub(neg(d), ONE))))
    if isint:
        d = norm_int(d)
    return mk("lt", d)


def norm_int(d):
    return d


def le(a, b, isint=False):
    return lnot(lt(b, a, isint))


def eq(a, b):
    if a is b:
        return TRUE
    if is_bool(a) and is_bool(b):
        return lor(land(a, b), land(lnot(a), lnot(b)))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (is_const(x.a[1]) or is_const(x.a[2]) or x.a[1] is y or x.a[2] is y):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    # addresses of objects created at different places differ, and none is null
    if a.op == "addr" and a.a[0].op == "new" and (b is ZERO or (b.op == "addr" and b.a[0].op == "new")):
        return FALSE
    if b.op == "addr" and b.a[0].op == "new" and a is ZERO:
        return FALSE
    if (a.op == "addr" or b.op == "addr") and (a.op == "ite" or b.op == "ite"):
        x, y = (a, b) if a.op == "ite" else (b, a)
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.a[0] == 0 else FALSE
    if lead_sign(d) < 0:
        d = neg(d)
    dd = poly(d)
    if len(dd) == 2 and () in dd and isint(d) and not all(c % dd[m] == 0 for m in dd if m for c in (dd[()],)):
        return FALSE                     # q*x == c over the integers, q not dividing c
    return mk("eq", d)


def truth(t):
    """contextual conversion to bool"""
    if is_bool(t):
        return t
    if t.op == "c":
        return TRUE if t.a[0] != 0 else FALSE
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ("addr", "new", "lam"):
        return TRUE
    if t.op == "agg" and t.a[0] == "opt":
        return t.a[2]
    return lnot(eq(t, ZERO))


def toint(t):
    if is_bool(t):
        return ite(t, ONE, ZERO) if t not in (TRUE, FALSE) else (ONE if t is TRUE else ZERO)
    return t


def diff(e, phi):
    """e - phi, pushed through the gates of e"""
    if e.op == "ite" and phi.op != "ite" and phi in set(walk(e)):
        return ite(e.a[0], diff(e.a[1], phi), diff(e.a[2], phi))
    return sub(e, phi)


_FREE = {}


def binder_body(t):
    """(body, other operands) of a term that binds a variable"""
    if t.op == "sum":
        return t.a[1], (t.a[0],)
    if t.op in ("minr", "maxr"):
        return t.a[2], (t.a[0], t.a[1])
    if t.op in ("atmin", "atmax"):
        return t.a[3], (t.a[0], t.a[1], t.a[2])
    if t.op == "fold":
        return t.a[2], (t.a[0], t.a[1])
    if t.op == "gfix":
        return t.a[2], (t.a[0], t.a[1]) + t.a[4:]
    if t.op == "bool" and t.a and t.a[0] == "exists" and len(t.a) == 3:
        return t.a[2], (t.a[1],)
    if t.op == "sorted":
        return t.a[0], ()
    return None


def fold(n, init, body, which):
    """value of one component of a recurrence after n steps: body is the next state in terms of the bound (k, state)"""
    if n is ZERO:
        return sel(init, which)
    return mk("fold", n, init, body, which)


def with_bv(body, bv):
    """a binder has to mention the variable it binds"""
    if body.op == "agg" and bv.a[0] not in free_levels(body):
        return mk("agg", body.a[0], body.a[1] + ("v",), *(body.a[2:] + (bv,)))
    if body.op != "agg" and is_bool(body) and body not in (TRUE, FALSE) and bv.a[0] not in free_levels(body):
        return mk("and", body, mk("bool", "bvt", bv))
    return body


def free_levels(t):
    """levels of the bound variables free in t; a binder binds the lowest free level of its body"""
    r = _FREE.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.a[0],))
    else:
        bb = binder_body(t)
        if bb is not None:
            f = free_levels(bb[0])
            r = f - {min(f)} if f else f
            for x in bb[1]:
                r |= free_levels(x)
        else:
            r = frozenset()
            for x in kids(t):
                r |= free_levels(x)
    _FREE[t] = r
    return r


def tsum(n, body, bv):
    """sum of body(bv) for bv in [0, n), distributed over the monomials, invariant factors pulled out"""
    acc = ZERO
    for m, c in poly(toint(body)).items():
        inv, dep = [], []
        for x in m:
            (dep if bv in set(walk(x)) else inv).append(x)
        if not dep:
            t = n
        else:
            p = ONE
            for x in dep:
                p = mul(p, x)
            t = mk("sum", n, p)
        for x in inv:
            t = mul(t, x)
        acc = add(acc, scale(t, c))
    return acc


# ---- aggregates ------------------------------------------------------------------------------------------------------
_CANON = {"first": "0", "second": "1"}


def cn(n):
    return _CANON.get(n, n)


def agg(kind, names, vals):
    names = [cn(n) for n in names]
    return mk("agg", kind, tuple(names), *vals)


def sel(v, n):
    n = cn(n)
    if v.op == "agg":
        if n in v.a[1]:
            return v.a[2 + v.a[1].index(n)]
    if v.op == "upd":
        if v.a[1] == n:
            return v.a[2]
        return sel(v.a[0], n)
    if v.op == "ite":
        return ite(v.a[0], sel(v.a[1], n), sel(v.a[2], n))
    if v.op == "ld":
        return mk("ld", mk("fld", v.a[0], n), v.a[1])
    return mk("sel", v, n)


def upd(v, n, x):
    n = cn(n)
    if v.op == "agg":
        names = v.a[1]
        nn = n
        if nn in names:
            vals = list(v.a[2:])
            vals[names.index(nn)] = x
            return agg(v.a[0], names, vals)
    if v.op == "upd" and v.a[1] == n:
        return mk("upd", v.a[0], n, x)
    return mk("upd", v, n, x)


# ---- traversal -------------------------------------------------------------------------------------------------------
def kids(t):
    if t.op == "poly":
        for m, c in t.a[0]:
            for x in m:
                yield x
        return
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def atoms_of(t):
    """atoms of the polynomial"""
    s = []
    for m in poly(t):
        for x in m:
            if x not in s:
                s.append(x)
    return s


def base_of(p):
    """the pointer/iterator atom an address expression is relative to (or None), and the offset"""
    d = poly(p)
    c = [m[0] for m, k in d.items() if len(m) == 1 and k == 1 and is_ptr_atom(m[0])]
    if len(c) == 1:
        return c[0], sub(p, c[0])
    if p.op == "ite":
        return None, None
    return None, None


def subst(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if t.op == "poly":
            acc = ZERO
            for m, c in t.a[0]:
                x = mk("c", c)
                for y in m:
                    x = mul(x, subst(y, f, memo))
                acc = add(acc, x)
            r = acc
        elif not any(True for _ in kids(t)):
            r = t
        else:
            na = []
            for x in t.a:
                if isinstance(x, T):
                    na.append(subst(x, f, memo))
                elif isinstance(x, tuple):
                    na.append(tuple(subst(y, f, memo) if isinstance(y, T) else y for y in x))
                else:
                    na.append(x)
            bb = binder_body(t)
            fl = free_levels(bb[0]) if bb is not None else None
            if fl:
                bv = mk("bv", min(fl))
                if t.op == "sum":
                    r = tsum(na[0], na[1], bv)
                elif t.op == "bool":
                    r = FALSE if na[2] is FALSE else mk("bool", "exists", na[1], na[2]) if min(fl) in free_levels(na[2]) else land(lt(ZERO, na[1], True), na[2])
                else:
                    i = 0 if t.op == "sorted" else 2 if t.op in ("minr", "maxr", "fold", "gfix") else 3
                    na[i] = with_bv(na[i], bv)
                    r = fold(*na) if t.op == "fold" else mk(t.op, *na)
            else:
                r = rebuild(t.op, na)
            if t in _ptr_atoms and r.op not in ("poly", "c"):
                mark_ptr(r)
            if r.op == t.op and r.op in ("ld", "sel", "phi", "draw", "permidx", "fold", "gfix", "rd"):
                if t in _nn:
                    _nn.add(r)
                if t in FL:
                    FL.add(r)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "ite":
        return ite(*a)
    if op == "not":
        return lnot(a[0])
    if op == "and":
        return land(*a)
    if op == "or":
        return lor(*a)
    if op == "eq":
        return eq(a[0], ZERO)
    if op == "lt":
        if a[0].op == "c":
            return TRUE if a[0].a[0] < 0 else FALSE
        return mk("lt", a[0])
    if op == "idiv":
        return idiv(*a)
    if op == "trunc":
        return trunc(*a)
    if op == "imod":
        return imod(*a)
    if op == "inv":
        return fdiv(ONE, a[0])
    if op == "sel":
        return sel(*a)
    if op == "deref":
        return deref(a[0])
    if op == "mkey" and a[1].op == "midx" and a[1].a[0] is a[0] and a[1].a[2] == a[2]:
        return a[1].a[1]
    return mk(op, *a)


def deref(p):
    if p.op == "addr":
        return p.a[0]
    if p.op == "ite":
        return mk("iloc", p.a[0], deref(p.a[1]), deref(p.a[2]))
    return mk("deref", p)


def fld(loc, n):
    n = cn(n)
    if loc.op == "iloc":
        return mk("iloc", loc.a[0], fld(loc.a[1], n), fld(loc.a[2], n))
    return mk("fld", loc, n)


def addr(loc):
    if loc.op == "deref":
        return loc.a[0]
    return mk("addr", loc)


# ---- printing --------------------------------------------------------------------------------------------------------
_names = {}


def name(t, s):
    _names.setdefault(t, s)
    return t


def show(t, depth=8):
    if t in _names:
        return _names[t]
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else ("(" + ",".join(map(s, x)) + ")" if isinstance(x, tuple) else str(x))
    if t.op == "c":
        return str(t.a[0])
    if t.op in ("true", "false", "inf"):
        return t.op
    if t.op == "poly":
        out = []
        for m, c in t.a[0]:
            f = "*".join(s(x) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if t.op == "ite":
        return "(%s ? %s : %s)" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if t.op == "not":
        return "!" + s(t.a[0])
    if t.op in ("and", "or"):
        return "(" + (" && " if t.op == "and" else " || ").join(s(x) for x in t.a) + ")"
    if t.op == "lt":
        d = poly(t.a[0])
        pos = unpoly({m: c for m, c in d.items() if c > 0})
        ng = unpoly({m: -c for m, c in d.items() if c < 0})
        return "%s < %s" % (s(pos), s(ng))
    if t.op == "eq":
        d = poly(t.a[0])
        pos = unpoly({m: c for m, c in d.items() if c > 0})
        ng = unpoly({m: -c for m, c in d.items() if c < 0})
        return "%s == %s" % (s(pos), s(ng))
    if t.op == "ld":
        v = t.a[1]
        return s(t.a[0]) + ("" if not v else "@" + str(v).replace(" ", ""))
    if t.op == "fld":
        return s(t.a[0]) + "." + str(t.a[1])
    if t.op == "deref":
        return "*" + s(t.a[0])
    if t.op == "agg":
        return t.a[0] + "{" + ", ".join("%s:%s" % (n, s(v)) for n, v in zip(t.a[1], t.a[2:])) + "}"
    return t.op + "(" + ", ".join(s(x) for x in t.a) + ")"
