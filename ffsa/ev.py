"""Gated value numbering of function bodies (a path-merging dataflow analysis; nothing is executed and no solver is used).

One pass over the structured control flow of a function computes, for every effect (store, call, container mutation, return,
throw), the value numbers of its operands, the gate (path condition) under which it happens and the loops that enclose it.
Calls to functions of the library, lambdas and the standard algorithms used with them are expanded in place (bounded, recursion is
left as an opaque call), so extracting a helper or writing a loop as an algorithm does not change the result.
Variables modified by a loop become phi terms; the ones advancing by a constant become init + step*k(loop).
"""
import itertools
from .term import *
from . import interp, stdmodel


class Effect:
    __slots__ = ("kind", "pc", "loops", "loc", "val", "q", "args", "obj", "ret", "line", "fn", "seq", "node", "old", "stack")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def guard(self):
        return land(*self.pc)

    def __repr__(self):
        g = show(self.guard())
        r = "%s" % self.kind
        if self.kind in ("store",):
            r += " %s := %s" % (show(self.loc), show(self.val))
        elif self.kind in ("call", "cmut"):
            r += " %s obj=%s (%s)" % (self.q, show(self.obj) if self.obj is not None else "-", ", ".join(show(a) if isinstance(a, T) else str(a) for a in self.args or []))
        elif self.kind in ("ret", "throw"):
            r += " %s" % (show(self.val) if self.val is not None else "")
        return "%s  [%s] loops=%s line=%s" % (r, g, [l.id for l in self.loops], self.line)


class Loop:
    def __init__(self, id, line, fn, kind):
        self.id, self.line, self.fn, self.kind = id, line, fn, kind
        self.k = name(mk("k", id), "k%d" % id)
        self.cond = None       # condition (over k / phis) evaluated at the top of an iteration
        self.trip = None       # number of iterations when affine
        self.vars = {}         # loc -> (init, phi, end)
        self.pc = ()           # path condition on entry
        self.parent = ()
        self.has_break = False
        self.range = None      # (base iterator, length) for traversals of a range
        self.omp = None


class Frame:
    __slots__ = ("bind", "this", "fn", "rets", "id", "P")

    def __init__(self, fn, this, id, P):
        self.bind, self.this, self.fn, self.rets, self.id, self.P = {}, this, fn, [], id, P


class State:
    __slots__ = ("env", "ver", "pc", "dead", "lay")

    def __init__(self, env=None, ver=None, pc=(), dead=False, lay=None):
        self.env, self.ver, self.pc, self.dead = env if env is not None else {}, ver if ver is not None else {}, pc, dead
        self.lay = lay if lay is not None else {}

    def fork(self):
        return State(dict(self.env), dict(self.ver), self.pc, self.dead, dict(self.lay))


def _nonneg(t):
    """built only from sizes, iteration numbers, bound variables and non-negative constants with + and *"""
    return nonneg(t)


def solve_index(off, ks, o):
    """values of the iteration numbers ks for which the affine offset `off` equals `o` (None when not determined)"""
    if len(ks) == 1:
        k = ks[0]
        d = poly(off)
        if any(k in m and len(m) > 1 for m in d):
            if all(k in m for m in d) or True:
                return _solve_scaled(off, ks, o)
        c = d.get((k,), 0)
        if c not in (1, -1):
            return None
        rest = unpoly({m: v for m, v in d.items() if m != (k,)})
        if k in set(walk(rest)):
            return None
        return {k: scale(sub(o, rest), Fraction(1) / c)}
    return _solve_scaled(off, ks, o)


def _solve_scaled(off, ks, o):
    d = poly(off)
    coef = {}
    used = set()
    for k in ks:
        ms = [m for m in d if k in m]
        if len(ms) != 1 or ms[0].count(k) != 1 or d[ms[0]] != 1:
            return None
        rest = list(ms[0])
        rest.remove(k)
        if any(x in ks for x in rest):
            return None
        coef[k] = tuple(rest)
        used.add(ms[0])
    if len(set(coef.values())) != len(ks):
        return None
    base = unpoly({m: v for m, v in d.items() if m not in used})
    if any(k in set(walk(base)) for k in ks):
        return None
    rem = poly(sub(o, base))
    sol = {}
    for k in sorted(ks, key=lambda k: -len(coef[k])):
        c = coef[k]
        part = {}
        for m in list(rem):
            mm = list(m)
            ok = True
            for x in c:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
            if ok and (c or True):
                part[tuple(mm)] = rem.pop(m)
        sol[k] = unpoly(part)
    if rem:
        return None
    return sol


class Limit(Exception):
    pass


ITER_OPS = {"+", "-", "++", "--", "+=", "-=", "==", "!=", "<", ">", "<=", ">=", "*", "->", "[]", "="}


REGK = {}
_GN, _GL = itertools.count(1), itertools.count(1)


class Ev:
    def __init__(self, P, opaque=None, maxdepth=40, maxeff=60000, models=None):
        self.alts = {}                # variant object -> the alternative it was built with
        self.P = P
        self.opaque = opaque or (lambda f: False)
        self.models = models or {}
        self.effects = []
        self.loops = []
        self.loopstack = []
        self.allloops = []
        self.n = _GN
        self.nloop = _GL
        self.stack = []
        self.frames = []
        self.lams = {}
        self.small, self.queues, self.draining = {}, set(), set()
        self.dry = 0
        self.maxdepth = maxdepth
        self.maxeff = maxeff
        self.st = State()
        self.ctl = []          # stack of loop control records
        self.notes = set()
        self.accesses = []
        self.facts = []
        self.contracts = {}
        self.objtype = {}      # ident loc -> type index
        self.writes = None     # set of locs written (dry mode)
        self.inlined = set()
        self.omp = []
        self.hook_read = None
        self.copies = {}       # container -> (first source element, state at the copy, version of the copy)
        self.conts = set()     # locations a container or object was stored to
        self.slog = []         # stores of the current pass (location, value, path condition, loops)

    # ---- helpers ------------------------------------------------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def fresh(self):
        return next(self.n)

    def eff(self, kind, **k):
        if self.dry:
            return
        if len(self.effects) > self.maxeff:
            raise Limit("too many effects")
        e = Effect(kind=kind, pc=self.st.pc, loops=tuple(self.loopstack), fn=self.fr.fn if self.frames else None,
                   seq=len(self.effects), stack=tuple(f.fn["id"] for f in self.frames), **k)
        self.effects.append(e)

    # ---- memory -------------------------------------------------------------------------------------------------
    def root(self, loc):
        path = []
        while loc.op == "fld":
            path.append(loc.a[1])
            loc = loc.a[0]
        return loc, tuple(reversed(path))

    def regkey(self, loc):
        r, path = self.root(loc)
        if r.op == "deref":
            b, off = base_of(r.a[0])
            if b is not None and b.op == "find":
                b = mk("mapmem", b.a[0])
            return (b if b is not None else mk("anymem"), path)
        return (r, path)

    def family(self, b):
        """elements of a container that is itself an element: the array of containers it belongs to, and which one it is"""
        if b.op != "begin":
            return None
        r, path = self.root(b.a[0])
        if r.op != "deref":
            return None
        o, off = base_of(r.a[0])
        return None if o is None or off is None else (o, path, off)

    def may_be_same(self, x, y):
        d = sub(x, y)
        if d.op == "c":
            return d.a[0] == 0
        e = lnot(eq(x, y))
        return e is not TRUE and not any(e is c or (c.op == "and" and e in c.a) for c in self.st.pc)

    def nested_writes(self, b):
        f = self.family(b)
        if f is None:
            return ()
        return [v for k, v in self.st.ver.items() if k[0] is f[0] and len(k) == 3 and k[1] == f[1] and k[2] is not f[2] and self.may_be_same(k[2], f[2])]

    def version(self, loc):
        b, path = self.regkey(loc)
        v = self.st.ver
        out = []
        g = v.get("*", 0)
        if g:
            out.append(g)
        out.extend(self.nested_writes(b))
        for i in range(len(path) + 1):
            x = v.get((b, path[:i]), 0)
            if x:
                out.append(x)
        return max(out) if out else 0

    def access(self, loc, line=None):
        """an element of a container of known length is named: its index has to be below the length"""
        if self.dry or self.st.dead:
            return loc
        if loc.op == "iloc":
            self.access(loc.a[1], line)
            self.access(loc.a[2], line)
            return loc
        r, _ = self.root(loc)
        if r.op == "deref":
            b, off = base_of(r.a[0])
            if b is not None and b.op == "begin" and off is not None:
                n = self.st.env.get(fld(b.a[0], "#size"))
                if n is not None:
                    fn = self.fr.fn if self.frames else None
                    self.accesses.append((fn, line, tuple(self.st.pc), off, n, tuple(self.loopstack)))
        return loc

    def load(self, loc, t=None):
        if loc.op == "iloc":
            return ite(loc.a[0], self.load(loc.a[1], t), self.load(loc.a[2], t))
        v = self.st.env.get(loc)
        if v is None:
            k = self._mapkey(loc)
            if k is not None:
                return k
            if loc.op == "fld":
                b = self.st.env.get(loc.a[0])
                if b is not None and b.op == "cobj":
                    return self.load(fld(b.a[0], loc.a[1]), t)
                if b is not None:
                    v = sel(b, loc.a[1])
                elif loc.a[0].op == "fld" or loc.a[0].op == "var":
                    bb = self._agg_at(loc.a[0])
                    if bb is not None:
                        v = sel(bb, loc.a[1])
            if v is None and loc.op == "fld" and loc.a[1] == "#size":
                return self.size_of(loc.a[0])
            if v is None and loc.op == "fld" and loc.a[1] == "#ghost" and loc.a[0].op in ("new", "var"):
                return ZERO
            if v is None:
                v = self._layered(loc)
            if v is None:
                f = self._fill(loc)
                if f is not None:
                    v = f
            if v is None:
                if loc.op == "deref" and loc.a[0].op == "begin":
                    pass
                v = mk("ld", loc, self.version(loc))
        if v.op == "ld":
            self._regmark(loc, v, t)
        elif v.op == "ite" and loc.op == "fld" and loc.a[1] == "val":
            v = self._under_pc(v)
        if t is not None and self.P.cls(t) in ("ptr", "iter", "sptr", "uarr") and v.op not in ("poly", "c", "ite"):
            mark_ptr(v)
        if t is not None and self.P.t(self.P.strip(t)).get("uns"):
            mark_nonneg(v)
        if t is not None and self.P.t(self.P.strip(t))["k"] == "float":
            FL.add(v)
        return v

    def _mapkey(self, loc):
        """the key stored in a slot of a map or set"""
        r = loc
        if loc.op == "fld" and loc.a[1] in ("0", "first"):
            r = loc.a[0]
        if r.op == "deref" and (stdmodel.MAPS or stdmodel.SETS):
            b, off = base_of(r.a[0])
            if b is not None and b.op == "begin" and b.a[0] in (stdmodel.SETS if r is loc else stdmodel.MAPS):
                return off
        return None

    def _regmark(self, loc, v, t):
        """all elements of one array have one type: remember what a typed access told"""
        r, path = self.root(loc)
        if r.op != "deref":
            return
        key = self.regkey(loc)
        if t is not None:
            tt = self.P.t(self.P.strip(t))
            if tt.get("uns"):
                REGK[key] = "u"
            elif tt["k"] == "float":
                REGK[key] = "f"
        k = REGK.get(key)
        if k == "u":
            mark_nonneg(v)
        elif k == "f":
            FL.add(v)

    def _agg_at(self, loc):
        v = self.st.env.get(loc)
        if v is not None:
            return v
        if loc.op == "fld":
            b = self._agg_at(loc.a[0])
            if b is not None and b.op != "cobj":
                return sel(b, loc.a[1])
        return None

    # -- element layers: what happened to the elements reached from one base pointer, oldest first ----------------
    def _base_layer(self, b):
        g = max([self.st.ver.get("*", 0)] + list(self.nested_writes(b)))
        return ("base", tuple(sorted(((k[1], v) for k, v in self.st.ver.items() if k != "*" and k[0] is b and len(k) == 2), key=repr)), g)

    def _push_layer(self, b, layer, base=None, others=True):
        if b.op in ("anymem", "mapmem"):
            return
        if others:
            self._other_elements(b)
        ls = self.st.lay.get(b)
        if ls is None:
            ls = (base or self._base_layer(b),)
        if len(ls) > 24:
            self.st.lay.pop(b, None)
            self.st.ver[(b, ())] = self.fresh()
            return
        self.st.lay[b] = ls + (layer,)

    def _merge_lay(self, c, a, b, owner):
        out = {}
        for k in set(a.lay) | set(b.lay):
            x, y = a.lay.get(k), b.lay.get(k)
            o = owner(k)
            if o is not None:
                if k in o.lay:
                    out[k] = o.lay[k]
                continue
            if x == y:
                out[k] = x
                continue
            if x is None:
                x = y[:1]
            if y is None:
                y = x[:1]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                continue
            l = x[:n]
            if x[n:]:
                l += (("g", c, x[n:]),)
            if y[n:]:
                l += (("g", lnot(c), y[n:]),)
            out[k] = l
        return out

    def _layered(self, loc):
        r, path = self.root(loc)
        if r.op != "deref" or not self.st.lay:
            return None
        b, o = base_of(r.a[0])
        ls = self.st.lay.get(b) if b is not None else None
        if ls is None:
            return None
        v = self._read_layers(b, ls, path, o)
        return v if v is None or v.op in ("cobj", "iobj", "ref", "tie") else self._under_pc(v)

    def _under_pc(self, v):
        """simplify a value by what is known on this path"""
        if not self.st.pc or v.op in ("c", "ld", "arg"):
            return v
        f = {}
        for c in self.st.pc:
            parts = c.a if c.op == "and" else [lnot(x) for x in c.a[0].a] if c.op == "not" and c.a[0].op == "or" else (c,)
            for x in parts:
                if x.op == "not":
                    f[x.a[0]] = FALSE
                elif x.op in ("lt", "eq", "bool"):
                    f[x] = TRUE
        if not f or not any(x in f for x in walk(v)):
            return v
        return subst(v, lambda t: f.get(t))

    def _read_layers(self, b, ls, path, o):
        loc = deref(add(b, o))
        for x in path:
            loc = fld(loc, x)
        for i in range(len(ls) - 1, 0, -1):
            if ls[i][0] == "perm":
                # a random rearrangement of the first n elements: what was at the permuted position before
                _, pp, pid, n = ls[i]
                v = self._read_layers(b, ls[:i], path, ite(lt(o, n, True), mark_nn(mk("permidx", pid, n, o)), o))
                return None if v is None else self._apply_layers(ls[i + 1:], v, loc, path, o)
        base = ls[0]
        bv = base[2]
        for p, v in base[1]:
            if path[:len(p)] == p:
                bv = max(bv, v)
        v = self._fill(loc, bv)
        if v is None:
            v = mk("size", loc.a[0], bv) if path and path[-1] == "#size" else mk("ld", loc, bv)
        return self._apply_layers(ls[1:], v, loc, path, o)

    def _apply_layers(self, ls, v, loc, path, o):
        for L in ls:
            kind = L[0]
            if kind == "g":
                w = self._apply_layers(L[2], v, loc, path, o)
                if w is None:
                    return None
                if w is not v and (w.op in ("cobj", "iobj") or v.op in ("cobj", "iobj")):
                    if w.op in ("cobj", "iobj") and v.op in ("cobj", "iobj"):
                        v = mk("iobj", L[1], w, v)
                        continue
                    return None
                v = ite(L[1], w, v)
                continue
            if kind == "perm":
                return None
            p = L[1]
            n = min(len(p), len(path))
            if p[:n] != path[:n]:
                continue
            if kind == "G":
                if len(p) > len(path):
                    return None
                v = mk("gfix", *(L[2].a + (o,)))
                if REGK.get((loc_base(loc), p)) == "u":
                    mark_nn(v)
                elif REGK.get((loc_base(loc), p)) == "f":
                    FL.add(v)
                for x in path[len(p):]:
                    v = sel(v, x)
                continue
            if kind == "op":
                if len(p) > len(path):
                    return None
                v = mk("size", loc.a[0], L[2]) if path and path[-1] == "#size" else mk("ld", loc, L[2])
                continue
            if kind == "st":
                c = eq(L[2], o)
                if c is FALSE:
                    continue
                val = L[3]
                if len(p) > len(path):
                    if len(p) != len(path) + 1 or v.op in ("cobj", "iobj"):
                        return None
                    w = upd(v, p[-1], val)
                else:
                    w = val
                    for x in path[len(p):]:
                        if w.op in ("cobj", "iobj", "ref", "tie"):
                            return None
                        w = sel(w, x)
                if w.op in ("cobj", "iobj", "ref", "tie") and c is not TRUE:
                    return None
                v = w if c is TRUE else ite(c, w, v)
                continue
            if len(p) != len(path):
                if len(p) < len(path) and kind == "map":
                    w = self._apply_map(L, None, o)
                    if w is None:
                        return None
                    g, val = w
                    if g is FALSE:
                        continue
                    for x in path[len(p):]:
                        if val.op in ("cobj", "iobj", "ref", "tie"):
                            return None
                        val = sel(val, x)
                    v = val if g is TRUE else ite(g, val, v)
                    continue
                if len(p) < len(path) and kind == "T":
                    v = self._component(L, v, path[len(p):], o)
                    if v is not None:
                        continue
                return None
            if kind == "map":
                w = self._apply_map(L, v, o)
                if w is not None:
                    g, val = w
                    v = v if g is FALSE else val if g is TRUE else ite(g, val, v)
                    continue
                if L[6] is None:
                    return None
                L = L[6]
            # transformer
            _, _, Tm, OLD, O = L
            v = subst(Tm, lambda t: v if t is OLD else (o if t is O else None))
        return v

    def _component(self, L, v, rest, o):
        """one component of the elements a loop rewrote as a whole"""
        _, _, Tm, OLD, O = L
        at = lambda x: subst(x, lambda t: o if t is O else None)

        def go(t):
            if t is OLD:
                return v
            if t.op == "ite":
                if OLD in set(walk(t.a[0])):
                    return None
                a, b = go(t.a[1]), go(t.a[2])
                return None if a is None or b is None else ite(at(t.a[0]), a, b)
            if OLD in set(walk(t)) or t.op in ("cobj", "iobj", "ref", "tie"):
                return None
            for x in rest:
                t = sel(t, x)
            return at(t)
        return go(Tm)

    def _apply_map(self, L, old, o):
        """element written by a loop nest that stores to base + affine(k): (in range and written, value)"""
        _, _, off, dims, guard, val, _ = L
        sol = solve_index(off, [k for k, n in dims], o)
        if sol is None:
            return None
        inr = [c for k, n in dims for c in (le(ZERO, sol[k], True) if sol[k].op == "c" or k not in set(walk(sol[k])) and not _nonneg(sol[k]) else TRUE, lt(sol[k], n, True))]
        facts = set(self.st.pc)
        for f in self.st.pc:
            if f.op == "and":
                facts.update(f.a)
        inr = [c for c in inr if c not in facts]
        sb = lambda t: subst(t, lambda x: sol.get(x) if x in sol else (old if x.op == "oldelt" else None))
        if old is None and any(x.op == "oldelt" for x in list(walk(val)) + list(walk(guard))):
            return None
        off0 = poly(off)
        if len(dims) == 1 and off0.get((dims[0][0],), 0) in (1, -1):
            return land(*inr, sb(guard)), sb(val)
        # strided: outside the box another (k, ...) may denote the same element
        ing = land(*inr)
        if ing is TRUE:
            return sb(guard), sb(val)
        if old is None:
            return None
        return lor(lnot(ing), sb(guard)), ite(ing, sb(val), mk("undef", "element outside the traversed box"))

    def _fill(self, loc, ver=None):
        """value of a container element never stored to since the container was filled with one value"""
        r, path = self.root(loc)
        if ver is None:
            ver = self.version(loc)
        if r.op == "deref":
            b, off = base_of(r.a[0])
            if b is not None and b.op == "begin":
                if path == ("#in",) and (b.a[0] in stdmodel.MAPS or b.a[0] in stdmodel.SETS):
                    f = self.st.env.get(fld(b.a[0], "#empty"))
                    if f is not None and ver == f:
                        return FALSE
                f = self.st.env.get(fld(b.a[0], "#fill"))
                if f is not None and ver == self.st.env.get(fld(b.a[0], "#fillver"), 0):
                    if f.op == "cobj":
                        l2 = f.a[0]
                        for p in path:
                            l2 = fld(l2, p)
                        return self.load(l2) if path else None
                    v = f
                    for p in path:
                        v = sel(v, p)
                    return v
                c = self.copies.get(b.a[0])
                if c is not None and ver == c[2]:
                    src, snap, _ = c
                    l2 = deref(add(src, off))
                    for p in path:
                        l2 = fld(l2, p)
                    sv = self.st
                    self.st = snap
                    v = self.load(l2)
                    self.st = sv
                    return v
        return None

    def store(self, loc, val, line=None, node=None, quiet=False):
        if loc.op == "iloc":
            c = loc.a[0]
            s0 = self.st
            a, b = s0.fork(), s0.fork()
            a.pc, b.pc = s0.pc + (c,), s0.pc + (lnot(c),)
            self.st = a
            self.store(loc.a[1], val, line, node, quiet)
            self.st = b
            self.store(loc.a[2], val, line, node, quiet)
            self.st = self.merge(c, a, b, s0.pc)
            return
        r, path = self.root(loc)
        if self.writes is not None:
            self.writes.add(loc)
        if r.op == "var" or (path and self._functional(loc)):
            # functional update of the aggregate held by the variable
            if loc.op == "fld":
                base = loc.a[0]
                old = self._agg_at(base)
                if old is None or old.op == "cobj":
                    if old is not None:
                        return self.store(fld(old.a[0], loc.a[1]), val, line, node, quiet)
                    old = self.load(base)
                if not quiet and r.op != "var":
                    self.eff("store", loc=loc, val=val, line=line, node=node)
                return self.store(base, upd(old, loc.a[1], val), line, node, True)
            if not quiet and r.op != "var":
                self.eff("store", loc=loc, val=val, line=line, node=node)
            self._drop_fields(loc)
            self.st.env[loc] = val
            return
        if not quiet:
            self.eff("store", loc=loc, val=val, line=line, node=node)
        self.slog.append((loc, val, self.st.pc, tuple(self.loopstack), self.dry))
        if val.op in ("cobj", "iobj"):
            self.conts.add(loc)
        self.clobber(loc, val)
        self.st.env[loc] = val

    def _functional(self, loc):
        b = loc.a[0] if loc.op == "fld" else None
        while b is not None:
            v = self.st.env.get(b)
            if v is not None:
                return v.op in ("agg", "upd", "ite") or v.op in ("sel", "call", "ld", "phi", "post")
            b = b.a[0] if b.op == "fld" else None
        return False

    def _drop_fields(self, loc):
        for k in [k for k in self.st.env if k.op == "fld" and self._under(k, loc)]:
            del self.st.env[k]

    def _under(self, k, loc):
        while k.op == "fld":
            k = k.a[0]
            if k is loc:
                return True
        return False

    def clobber(self, loc, val=None):
        """a store to loc: forget everything that may overlap"""
        b, path = self.regkey(loc)
        r, _ = self.root(loc)
        off = base_of(r.a[0])[1] if r.op == "deref" else None
        base = self._base_layer(b) if r.op == "deref" else None
        self.st.ver[(b, path)] = self.fresh()
        if r.op == "deref":
            if off is None or val is None:
                self._push_layer(b, ("op", path, self.st.ver[(b, path)]), base)
            else:
                self._push_layer(b, ("st", path, off, val), base)
        dead = []
        for k in self.st.env:
            if k is loc:
                continue
            kr, kp = self.root(k)
            if kr.op == "var":
                continue
            kb, _ = self.regkey(k)
            if kb is not b:
                continue
            n = min(len(kp), len(path))
            if kp[:n] != path[:n]:
                continue
            if any(str(x).startswith("#") for x in kp) and kp != path:
                continue
            if kr.op == "deref" and r.op == "deref" and off is not None:
                ko = base_of(kr.a[0])[1]
                if ko is not None:
                    d = sub(ko, off)
                    if d.op == "c" and d.a[0] != 0:
                        continue
            dead.append(k)
        for k in dead:
            del self.st.env[k]

    def _other_elements(self, b):
        """a write into one of the containers held by an array: any of the others that may be the same one changes too"""
        f = self.family(b)
        if f is None:
            return
        n = self.fresh()
        self.st.ver[f] = n
        for o in list(self.st.lay):
            g = self.family(o) if o is not b else None
            if g is not None and g[0] is f[0] and g[1] == f[1] and g[2] is not f[2] and self.may_be_same(g[2], f[2]):
                self._push_layer(o, ("op", (), n), None, False)
        for k in [k for k in self.st.env if self.root(k)[0].op == "deref"]:
            o = self.regkey(k)[0]
            g = self.family(o) if o is not b else None
            if g is not None and g[0] is f[0] and g[1] == f[1] and g[2] is not f[2] and self.may_be_same(g[2], f[2]):
                del self.st.env[k]

    def havoc_obj(self, loc, line=None):
        """an opaque operation may have changed anything below loc"""
        if loc.op == "iloc":
            self.havoc_obj(loc.a[1])
            self.havoc_obj(loc.a[2])
            return
        if self.writes is not None:
            self.writes.add(loc)
        r, path = self.root(loc)
        v = self.st.env.get(loc)
        if v is not None and v.op == "cobj" and v.a[0] is not loc:
            return self.havoc_obj(v.a[0])
        n = self.fresh()
        if r.op == "var":
            if loc.op == "fld":
                self.store(loc, mk("havoc", loc, n), quiet=True)
            else:
                self.st.env[loc] = mk("havoc", loc, n)
            return
        b, path = self.regkey(loc)
        self.st.ver[(b, path)] = n
        for k in [k for k in self.st.env if k is loc or self._under(k, loc)]:
            if k.op == "fld" and str(k.a[1]) == "#size" and False:
                continue
            del self.st.env[k]
        # elements of containers below
        bb = mk("begin", loc)
        if self.writes is not None:
            self.writes.add(deref(add(bb, mk("anyoff", n))))
        self.st.ver[(bb, ())] = n
        self.st.lay.pop(bb, None)
        self._other_elements(bb)
        if r.op == "deref":
            self.st.lay.pop(b, None)
            self.st.ver[(b, ())] = n
        for k in [k for k in self.st.env if self.root(k)[0].op == "deref" and base_of(self.root(k)[0].a[0])[0] is bb]:
            del self.st.env[k]

    def merge(self, c, a, b, pc):
        """join of two branch states"""
        if a.dead and b.dead:
            return State(a.env, a.ver, pc, True, a.lay)
        if a.dead:
            return b
        if b.dead:
            return a
        env = {}
        keys = set(a.env) | set(b.env)
        # containers created in one branch only: the other branch cannot refer to them
        only = {}
        for k in keys:
            if k.op == "fld" and k.a[1] == "#size" and k.a[0].op == "new":
                if k not in a.env:
                    only[k.a[0]] = b
                elif k not in b.env:
                    only[k.a[0]] = a

        def owner(x):
            while only:
                if x.op == "fld":
                    x = x.a[0]
                elif x.op == "deref":
                    x = base_of(x.a[0])[0]
                    if x is None:
                        return None
                elif x.op in ("begin", "addr"):
                    x = x.a[0]
                else:
                    return only.get(x)
            return None
        for k in keys:
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                env[k] = x
                continue
            if only and k.op != "var":
                o = owner(k)
                if o is not None:
                    if k in o.env:
                        env[k] = o.env[k]
                    continue
            if x is None or y is None:
                # not known on one side: a load in that state
                if k.op == "var":
                    env[k] = x if x is not None else y
                    continue
                if k.op == "fld" and str(k.a[1]).startswith("#fill"):
                    continue
                sv = self.st
                if x is None:
                    self.st = a
                    x = self.load(k)
                else:
                    self.st = b
                    y = self.load(k)
                self.st = sv
            if not isinstance(x, T) or not isinstance(y, T):
                if x == y:
                    env[k] = x
                continue
            if x.op == "cobj" and y.op == "cobj":
                env[k] = mk("cobj", x.a[0]) if x is y else mk("iobj", c, x, y)
                continue
            env[k] = ite(c, x, y)
        ver = {}
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k, 0), b.ver.get(k, 0)
            o = owner(k[0]) if only and k != "*" else None
            if o is not None:
                ver[k] = o.ver.get(k, 0)
                continue
            ver[k] = x if x == y else self.fresh()
        # drop values whose region changed version in just one branch and that were merged from loads: they are still exact
        na, nb = len(a.pc), len(b.pc)
        la, lb = a.pc[len(pc):], b.pc[len(pc):]
        if len(la) == 1 and len(lb) == 1:
            npc = pc
        else:
            x = lor(land(*la), land(*lb))
            npc = pc if x is TRUE else pc + (x,)
        return State(env, ver, npc, False, self._merge_lay(c, a, b, owner))

    # ---- functions ----------------------------------------------------------------------------------------------
    def run(self, fn, this=None, args=None):
        """summary of a function with symbolic parameters"""
        self.entry = fn
        P = self.P
        if this is None and "rec" in fn and not fn.get("static"):
            this = name(mk("obj", "this"), "this")
            self.objtype[this] = None
        fr = Frame(fn, this, self.fresh(), P)
        self.frames.append(fr)
        self.args = []
        for i, p in enumerate(fn["params"]):
            t = p["t"]
            c = P.cls(t)
            a = mk("arg", i, fn["id"], p["n"] or "", "p" if c in ("ptr", "iter", "sptr") else "i")
            name(a, p["n"] or "arg%d" % i)
            if P.t(P.strip(t)).get("uns"):
                mark_nonneg(a)
            if c == "float":
                FL.add(a)
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
            if c in ("obj", "cont", "uarr", "lambda", "other"):
                fr.bind[p["d"]] = a
                self.objtype[a] = P.strip(t)
                self.args.append(a)
            else:
                loc = name(mk("var", p["d"], fr.id), "&" + (p["n"] or "arg%d" % i))
                fr.bind[p["d"]] = loc
                if c in ("ptr", "iter", "sptr"):
                    mark_ptr(a)
                self.st.env[loc] = a
                self.args.append(a)
        self.ctor_and_body(fn)
        self.frames.pop()
        self.final = self.st
        rets = fr.rets
        self.ret = self.join_rets(rets)
        self.rets = rets
        return self

    def join_rets(self, rets):
        v = None
        for pc, x, st in reversed(rets):
            if x is None:
                continue
            v = x if v is None else self.vite(land(*pc), x, v)
        return v

    def vite(self, c, a, b):
        if a.op in ("cobj", "iobj") and b.op in ("cobj", "iobj") and a is not b:
            return mk("iobj", c, a, b)
        return ite(c, a, b)

    def ctor_and_body(self, fn):
        fr = self.fr
        P = fr.P
        if fn.get("ctor"):
            rec = P.records.get(fn.get("rec"))
            for i in fn.get("inits", []):
                e = i.get("e")
                if "field" in i:
                    loc = fld(fr.this, i["field"])
                    t = next((f["t"] for f in (rec or {}).get("fields", []) if f["n"] == i["field"]), None)
                    self.init_loc(loc, e, t, i.get("l"))
                elif "base" in i or i.get("deleg"):
                    if e is not None and e["k"] == "CXXConstructExpr":
                        self.construct(e, fr.this)
                    elif e is not None and e["k"] == "CXXInheritedCtorInitExpr":
                        self.note("inherited-ctor")
        if fn.get("body") is not None:
            self.exec(fn["body"])

    def note(self, s):
        self.notes.add(s)

    def init_loc(self, loc, e, t, line=None):
        """initialise the object at loc of type t with expression e"""
        P = self.fr.P
        if e is None:
            return
        if t is not None and P.isref(t):
            self.store(loc, addr(self.lv(e)), line)
            return
        if e["k"] == "CXXConstructExpr" and P.cls(e.get("t")) in ("obj", "cont", "other") and not (e.get("copy") or e.get("move")):
            v = self.construct(e, None, line)
        else:
            v = self.rv(e)
        self.store(loc, v, line)

    def inline(self, fn, this, argbinds, line=None):
        """argbinds: list of ('loc', loc) or ('val', value)"""
        if len(self.frames) > self.maxdepth:
            raise Limit("inline depth")
        P = fn["P"]
        if fn["q"] in self.contracts:
            v = self.contracts[fn["q"]](self, fn, this, argbinds)
            if v is not NotImplemented:
                return v
        fr = Frame(fn, this, self.fresh(), P)
        self.inlined.add(fn["id"])
        for p, a in zip(fn["params"], argbinds):
            t = p["t"]
            kind, x = a
            if P.isref(t):
                if kind == "loc":
                    fr.bind[p["d"]] = x
                else:
                    if x.op == "cobj":
                        fr.bind[p["d"]] = x.a[0]
                    else:
                        loc = mk("var", p["d"], fr.id)
                        self.st.env[loc] = x
                        fr.bind[p["d"]] = loc
            else:
                v = x if kind == "val" else self.load_obj(x, t)
                if v.op == "cobj":
                    fr.bind[p["d"]] = v.a[0]
                else:
                    loc = mk("var", p["d"], fr.id)
                    self.st.env[loc] = v
                    fr.bind[p["d"]] = loc
        self.frames.append(fr)
        pc0 = self.st.pc
        saved_ctl = self.ctl
        self.ctl = []
        cap = self.lams.get(this) if fn.get("lambda") else None
        if cap is not None:
            for d, b in cap["bind"].items():
                fr.bind[d] = b
            fr.this = cap["this"]
        self.ctor_and_body(fn)
        self.ctl = saved_ctl
        self.frames.pop()
        # merge return states
        rets = fr.rets
        st = self.st
        out = None
        v = None
        n0 = len(pc0)
        for pc, x, s in reversed(rets):
            g = land(*pc[n0:])
            if out is None and st.dead:
                out, v = s, x
                continue
            if out is None:
                out = st
            # values
            if x is not None:
                v = x if v is None else self.vite(g, x, v)
            a, b = s.fork(), out.fork()
            a.pc, b.pc = pc0 + (g,), pc0 + (lnot(g),)
            a.dead = b.dead = False
            out = self.merge(g, a, b, pc0)
        if out is None:
            out = st
        # throws: the remaining path condition of the caller excludes them
        out = State(out.env, out.ver, pc0, out.dead if not rets else False, out.lay)
        if self._thrown_pc:
            tp = [land(*p[n0:]) for p in self._thrown_pc if p[:n0] == pc0 and len(p) >= n0]
            x = land(*[lnot(g) for g in tp])
            if x is FALSE:
                out.dead = True
            elif x is not TRUE:
                out.pc = pc0 + (x,)
            self._thrown_pc = [p for p in self._thrown_pc if not (p[:n0] == pc0)]
            if x is not TRUE:
                for g in tp:
                    self._thrown_pc.append(pc0 + (g,))
        self.st = out
        return v

    _thrown_pc = []

    # ---- statements ---------------------------------------------------------------------------------------------
    def exec(self, s):
        if s is None or self.st.dead:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s)
        if k.startswith("OMP"):
            return self.s_omp(s)
        if "t" in s:      # an expression statement
            self.rv(s, discard=True)
            return
        if "c" in s:
            for c in s["c"]:
                self.exec(c)
            return
        self.note("stmt:" + k)

    def s_CompoundStmt(self, s):
        for c in s.get("c", []):
            if self.st.dead:
                return
            self.exec(c)

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for v in s.get("vars", []):
            self.decl(v)

    def decl(self, v):
        fr = self.fr
        P = fr.P
        t = v["t"]
        loc = name(mk("var", v["d"], fr.id), "&" + v["n"])
        init = v.get("i")
        if v.get("bindings") is not None:
            return self.decl_bindings(v, loc, t, init)
        if P.isref(t):
            if init is not None:
                fr.bind[v["d"]] = self.lv(init)
            return
        c = P.cls(t)
        fr.bind[v["d"]] = loc
        if init is None:
            self.st.env[loc] = mk("undef", loc)
            return
        if c in ("obj", "cont", "other", "uarr", "lambda"):
            val = self.construct(init, None, v.get("l")) if init["k"] == "CXXConstructExpr" and not (init.get("copy") or init.get("move")) else self.rv(init)
            if val.op == "cobj":
                fr.bind[v["d"]] = loc
                self.st.env[loc] = val
                self.objtype.setdefault(val.a[0], P.strip(t))
                return
            self.st.env[loc] = val
            return
        val = self.rv(init)
        self.st.env[loc] = self.convert(val, init.get("t"), t)

    def decl_bindings(self, v, loc, t, init):
        fr = self.fr
        P = fr.P
        if P.isref(t):
            base = self.lv(init)
        else:
            base = loc
            val = self.rv(init)
            self.st.env[loc] = val
            if val.op == "cobj":
                base = val.a[0]
        for i, b in enumerate(v["bindings"]):
            if "hd" in b:   # tuple-like: element i
                l = fld(base, str(i))
                self.fr.bind[b["hd"]] = l
                self.fr.bind[b["d"]] = l
            else:
                n = None
                e = b.get("b")
                if e is not None and e["k"] == "MemberExpr":
                    n = e["m"]
                l = fld(base, n if n is not None else str(i))
                self.fr.bind[b["d"]] = l

    def s_ReturnStmt(self, s):
        c = s.get("c") or []
        v = None
        if c and c[0] is not None:
            e = c[0]
            rt = self.fr.fn.get("ret")
            P = self.fr.P
            if rt is not None and P.isref(rt):
                v = mk("ref", self.lv(e))
            elif P.t(e.get("t"))["k"] == "void":
                self.rv(e, discard=True)
            else:
                v = self.rv(e)
                v = self.convert(v, e.get("t"), rt)
                if self.P.cls(rt) == "bool":
                    v = truth(v)
        if self.st.dead:
            return
        if len(self.frames) == 1 or True:
            self.eff("ret" if len(self.frames) == 1 else "iret", val=v, line=s["l"])
        self.fr.rets.append((self.st.pc, v, self.st.fork()))
        self.st.dead = True

    def s_IfStmt(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.exec(s["cv"])
        if s.get("constexpr"):
            v = s["cond"].get("v")
            if v is not None:
                self.exec(s["then"] if v not in ("0", "false") else s.get("else"))
                return
        c = self.cond(s["cond"])
        if self.st.dead:
            return
        self.branch(c, lambda: self.exec(s["then"]), (lambda: self.exec(s.get("else"))) if s.get("else") else None)

    def branch(self, c, fa, fb):
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb() if fb else None
        s0 = self.st
        g = land(*s0.pc)
        # already decided by the enclosing conditions?
        if c in s0.pc or (g.op == "and" and c in g.a) or g is c:
            return fa()
        nc = lnot(c)
        if nc in s0.pc or (g.op == "and" and nc in g.a) or g is nc:
            return fb() if fb else None
        known = set(s0.pc) | set(g.a if g.op == "and" else (g,))
        if c.op == "and":
            if all(x in known for x in c.a):
                return fa()
            if any(lnot(x) in known for x in c.a):
                return fb() if fb else None
        elif c.op == "or":
            if any(x in known for x in c.a):
                return fa()
            if all(lnot(x) in known for x in c.a):
                return fb() if fb else None
        pc = s0.pc
        a, b = s0.fork(), s0.fork()
        a.pc, b.pc = pc + (c,), pc + (nc,)
        self.st = a
        ra = fa()
        a = self.st
        self.st = b
        rb = fb() if fb else None
        b = self.st
        self.st = self.merge(c, a, b, pc)
        return ra, rb

    def cond(self, e):
        """boolean value of an expression (with short circuit)"""
        return truth(self.rv(e))

    def s_ForStmt(self, s):
        if s.get("init"):
            self.exec(s["init"])
        self.loop(s, "for", lambda: self.cond(s["cond"]) if s.get("cond") else TRUE, lambda: self.exec(s["body"]), lambda: self.rv(s["inc"], discard=True) if s.get("inc") else None)

    def s_WhileStmt(self, s):
        def cond():
            if s.get("cv"):
                self.exec(s["cv"])
            return self.cond(s["cond"])
        self.loop(s, "while", cond, lambda: self.exec(s["body"]), None)

    def s_DoStmt(self, s):
        self.loop(s, "do", None, lambda: self.exec(s["body"]), None, post=lambda: self.cond(s["cond"]))

    def s_CXXForRangeStmt(self, s):
        P = self.fr.P
        r = s["range"]
        # the range initialiser
        rc = P.cls(r.get("t"))
        if r["k"] == "CXXStdInitializerListExpr" or r["k"] == "InitListExpr":
            els = [self.rv(x) for x in r.get("c", [])]
            return self.unrolled(s, els)
        il = self._initlist(r)
        if il is not None:
            return self.unrolled(s, [self.rv(x) for x in il])
        loc = self.lv(r)
        loc = self.ident(loc)
        if rc == "obj":
            # user-defined begin()/end()
            b = self.call_member(r.get("t"), loc, "begin")
            e = self.call_member(r.get("t"), loc, "end")
            if b is not None and e is not None:
                n = self.size_of(b.a[0]) if b.op == "mit" and e.op == "mapend" else sub(e, b)
                return self.iter_loop(s, b, n, lambda elt: self.bind_range_var(s, elt))
        b = mk("begin", loc)
        n = self.size_of(loc)
        if rc == "cont" and stdmodel.int_keyed(self, loc, r.get("t")):
            b = mark_ptr(mk("mit", loc))
        self.iter_loop(s, b, n, lambda elt: self.bind_range_var(s, elt))

    def call_member(self, t, loc, nm):
        P = self.fr.P
        r = P.rec_of(t)
        for const in (True, False):
            for f in P.by_rec.get(r["id"], []) if r else []:
                if f["name"] == nm and f.get("body") and not f["params"] and bool(f.get("const")) == const:
                    return self.inline(f, loc, [])
        return None

    def _initlist(self, r):
        while r is not None and r["k"] in ("ImplicitCastExpr", "CXXConstructExpr", "CXXFunctionalCastExpr"):
            c = r.get("c") or r.get("a") or []
            if r["k"] == "CXXConstructExpr" and "initializer_list" not in r.get("q", ""):
                return None
            r = c[0] if c else None
        if r is not None and r["k"] == "InitListExpr":
            return r.get("c", [])
        if r is not None and r["k"] == "DeclRefExpr":
            return None
        return None

    def unrolled(self, s, els):
        for v in els:
            loc = mk("var", "tmp", self.fresh())
            self.st.env[loc] = v
            self.bind_range_var(s, loc)
            ctl = {"cont": [], "brk": [], "pc": self.st.pc}
            self.ctl.append(ctl)
            pc0 = self.st.pc
            self.exec(s["body"])
            self.ctl.pop()
            self.merge_snaps(ctl["cont"], pc0)
            if ctl["brk"]:
                self.note("break in unrolled loop")
            if self.st.dead:
                return

    def bind_range_var(self, s, elt):
        v = s["var"]
        fr = self.fr
        P = fr.P
        t = v["t"]
        if elt.op == "deref":
            p = stdmodel.mit(self, elt.a[0])
            if p is not elt.a[0]:
                elt = deref(p)
        loc = name(mk("var", v["d"], fr.id), "&" + v["n"])
        if v.get("bindings") is not None:
            base = elt
            if not P.isref(t):
                self.st.env[loc] = self.load(elt)
                base = loc
            for i, b in enumerate(v["bindings"]):
                n = None
                e = b.get("b")
                if "hd" not in b and e is not None and e["k"] == "MemberExpr":
                    n = e["m"]
                l = fld(base, n if n is not None else str(i))
                fr.bind[b["d"]] = l
                if "hd" in b:
                    fr.bind[b["hd"]] = l
            return
        if P.isref(t):
            fr.bind[v["d"]] = elt
        else:
            fr.bind[v["d"]] = loc
            self.st.env[loc] = self.load(elt, t)

    def iter_loop(self, s, base, n, bind, body=None):
        """traversal of the n elements starting at iterator base"""
        body = body or (lambda: self.exec(s["body"]))
        self.loop(s, "range", None, None, None, rng=(base, n, bind, body))

    def _snapshot(self, kind):
        for c in reversed(self.ctl):
            if c.get("switch") and kind == "cont":
                continue
            c[kind].append(self.st.fork())
            break
        self.st.dead = True

    def s_BreakStmt(self, s):
        self._snapshot("brk")

    def s_ContinueStmt(self, s):
        self._snapshot("cont")

    def merge_snaps(self, snaps, pc0):
        n0 = len(pc0)
        for sn in snaps:
            g = land(*sn.pc[n0:])
            sn = sn.fork()
            sn.dead = False
            if self.st.dead:
                self.st = sn
                continue
            cur = self.st
            a, b = sn, cur.fork()
            ga = land(*cur.pc[n0:])
            a.pc, b.pc = pc0 + (g,), pc0 + (lnot(g),)
            m = self.merge(g, a, b, pc0)
            x = lor(g, ga)
            m.pc = pc0 if x is TRUE else pc0 + (x,)
            self.st = m

    def loop(self, s, kind, cond, body, inc, post=None, rng=None):
        if self.st.dead:
            return
        fr = self.fr
        if cond is not None and rng is None:
            # the entry condition is already false: nothing but the condition is evaluated
            keep, self.st = self.st, self.st.fork()
            self.dry += 1
            was, self.queues = self.queues, set()
            c0 = cond()
            seen, self.queues = self.queues, was
            self.dry -= 1
            self.st = keep
            if c0 is FALSE or (c0 is not TRUE and lnot(c0) in keep.pc):
                cond()
                return
            if kind == "while" and seen and post is None:
                return self._drain(seen, cond, body, inc, max(sum(g is not FALSE for g, _ in stdmodel.small_of(self, o) or ()) for o in seen))
            if c0 is TRUE and post is None:
                n = self._short(cond, body, inc)
                if n is not None:
                    return self._straight(cond, body, inc, n)
        # 1. which locations does an iteration write?  (dry pass: every location readable, nothing recorded)
        key = None
        s_before = self.st
        saved_w = self.writes
        W = set()
        self.writes = W
        self.dry += 1
        savelams = dict(self.lams)
        saverets = [list(f.rets) for f in self.frames]
        savethrow = list(self._thrown_pc)
        self.st = s_before.fork()
        lp = Loop(next(self.nloop), s["l"], fr.fn, kind)
        nseen = set(self.st.env)
        self._iteration(lp, cond, body, inc, post, rng, {}, havoc_all=True)
        dry_end = self.st
        self.dry -= 1
        self.writes = saved_w
        for f, r in zip(self.frames, saverets):
            f.rets[:] = r
        self._thrown_pc = savethrow
        self.st = s_before
        if saved_w is not None:
            saved_w |= W
        # locations that exist outside the loop
        outer = self._outer(W, s_before)
        # 2. passes with phis to find induction variables, then (with those resolved) reductions
        lp = Loop(next(self.nloop), s["l"], fr.fn, kind)
        lp.v0 = self.fresh()          # memory versions below this one are from before the loop
        ind = {}
        reds = {}
        lp.fixed = set()
        lp.unbased = set()
        lp.replaced = set()
        grown = 0
        attempt = -1
        while attempt < 4:
            attempt += 1
            self.dry += 1
            w2 = self.writes
            self.writes = set()
            self.st = s_before.fork()
            phis = self._phis(lp, outer, ind, reds)
            start = self.st.fork()
            self._iteration(lp, cond, body, inc, post, rng, phis)
            end = self.st
            self.dry -= 1
            wrote = self.writes
            self.writes = w2
            off = [loc for loc, (phi, isreg) in phis.items() if not isreg and loc not in ind and loc not in reds and any(x.op == "phi" and x.a[1].op == "fld" and x.a[1].a[1] == "#off" for x in walk(phi))
                   and not self._one_base(end.env.get(loc), base_of(phi)[0])]
            if off and not end.dead:
                lp.unbased |= set(off)
                attempt = -1
                ind, reds = {}, {}
                lp.fixed = set()
                for f, r in zip(self.frames, saverets):
                    f.rets[:] = r
                self._thrown_pc = savethrow
                self.st = s_before.fork()
                continue
            # objects replaced as a whole
            new = {loc for loc in outer if loc.op == "var" and (s_before.env.get(loc) or TRUE).op == "cobj" and loc not in lp.replaced
                   and any(x.env.get(loc) is not start.env.get(loc) for x in [end] + list(lp.brk_states) if x is not end or not end.dead)}
            if new:
                lp.replaced |= new
                attempt = -1
                ind, reds = {}, {}
                lp.fixed = set()
                for f, r in zip(self.frames, saverets):
                    f.rets[:] = r
                self._thrown_pc = savethrow
                self.st = s_before.fork()
                continue
            # locations the first pass did not see written (a branch its concrete first iteration does not take)
            known = {self.root(w)[0] if self.root(w)[0].op == "var" else self.regkey(w) for w in W if w.op != "iloc"}
            more = [w for w in wrote if w.op != "iloc" and (self.root(w)[0] if self.root(w)[0].op == "var" else self.regkey(w)) not in known
                    and (self.root(w)[0].op != "var" or self.root(w)[0] in s_before.env)
                    and not any(x.op == "new" and isinstance(x.a[1], int) and x.a[1] > lp.v0 for x in walk(w))]
            if more and grown < 8:
                grown += 1
                attempt = -1
                W |= set(more)
                if saved_w is not None:
                    saved_w |= set(more)
                outer = self._outer(W, s_before)
                ind, reds = {}, {}
                lp.fixed = set()
                for f, r in zip(self.frames, saverets):
                    f.rets[:] = r
                self._thrown_pc = savethrow
                self.st = s_before.fork()
                continue
            if attempt == 0:
                lp.fixed = self._fixed_cells(lp, W, wrote, s_before)
                if lp.fixed:
                    for f, r in zip(self.frames, saverets):
                        f.rets[:] = r
                    self._thrown_pc = savethrow
                    self.st = s_before.fork()
                    continue
            elif lp.fixed - self._fixed_cells(lp, W, wrote, s_before):
                lp.fixed = set()
                ind, reds = {}, {}
                for f, r in zip(self.frames, saverets):
                    f.rets[:] = r
                self._thrown_pc = savethrow
                self.st = s_before.fork()
                continue
            if not end.dead:
                self._own_scalars(lp, wrote, s_before, start, end)
            for f, r in zip(self.frames, saverets):
                f.rets[:] = r
            self._thrown_pc = savethrow
            self.st = s_before.fork()
            n_before = len(ind) + len(reds)
            self._classify(lp, phis, s_before, end, W, ind, reds)
            left = [loc for loc, (phi, isreg) in phis.items() if not isreg and loc not in ind and loc not in reds]
            if left and len(ind) + len(reds) == n_before and not end.dead:
                if self._recurrence(lp, phis, s_before, end, W, ind, reds, left):
                    continue
            if not left or len(ind) + len(reds) == n_before or end.dead:
                break
        rb = getattr(self, "retbreak", None)
        if lp.ret_guards and not (rb and rb["frame"] is fr and rb["depth"] == len(self.loopstack)) and (lp.brk_guards or self._exists(lp, lor(*lp.ret_guards)).a[0] == "someiter"
                              or any(v is not None and not self._closed(lp, v) for v in lp.ret_vals)):
            flat = [self._flatten(lp, v) if v is not None else ([], None) for v in lp.ret_vals]
            if all(f is not None for f in flat):
                self.st = s_before
                self.lams = savelams
                return self._returning(s, kind, cond, body, inc, post, rng, flat)
        # 3. real pass
        phis = self._phis(lp, outer, ind, reds)
        lp.pc = s_before.pc
        nrets0 = len(fr.rets)
        lp.parent = tuple(self.loopstack)
        if not self.dry:
            self.allloops.append(lp)
        init_env = {loc: s_before.env.get(loc) for loc in phis}
        slog_mark = len(self.slog)
        start = self.st.fork()
        self._iteration(lp, cond, body, inc, post, rng, phis, final=True)
        end = self.st
        for loc, (phi, isreg) in phis.items():
            if not isreg:
                e = end.env.get(loc) if not end.dead else None
                lp.vars[loc] = (init_env.get(loc), phi, e)
        if lp.trip is None and (cond is not None or post is not None) and rng is None and not lp.brk_guards and not lp.ret_guards and not end.dead:
            # the number of iterations: the first one whose condition is false
            c = lp.cond if cond is not None else lp.postcond
            if c not in (TRUE, FALSE) and self._closed(lp, c) and self._invariant(c, lp, W):
                n = mark_nn(mk("firstk", mk("bool", "exists", INF, self._lam(lp, lnot(c))[0])))
                lp.trip = n if cond is not None else add(n, ONE)
        # 4. state after the loop
        out = s_before.fork()
        E = self._exists(lp, lor(*lp.brk_guards)) if lp.brk_guards else None
        R = self._exists(lp, lor(*lp.ret_guards)) if lp.ret_guards else None
        exact = lp.trip is not None and not lp.brk_guards
        for loc, (phi, isreg) in phis.items():
            if isreg:
                continue
            v = None
            if loc in ind:
                init, step = ind[loc]
                if step is ZERO:
                    v = init
                elif exact:
                    v = add(init, mul(step, lp.trip))
                elif lp.trip is not None:
                    v = add(init, mul(step, lp.trip))
                else:
                    v = add(init, mul(step, name(mk("trip", lp.id), "trip%d" % lp.id)))
            elif loc in reds and lp.trip is not None:
                v = self._red_value(lp, reds[loc], lp.trip)
            if v is None:
                v = mk("post", lp.id, loc)
                if is_ptr_atom(phi):
                    mark_ptr(v)
                old = s_before.env.get(loc)
                if old is not None and old.op == "agg":
                    v = agg(old.a[0], old.a[1], [mk("post", lp.id, fld(loc, n)) for n in old.a[1]])
            # leaving by break
            if lp.brk_guards:
                bv = [b.env.get(loc) for b in lp.brk_states]
                if all(b is phi for b in bv) and loc in ind and ind[loc][1] is ZERO:
                    pass
                elif len(bv) == 1 and bv[0] is not None and E.a[0] == "exists" and self._closed(lp, bv[0]):
                    v = self.vite(E, self._at_first(lp, E, bv[0]), v)
                elif bv and all(b is not None and b is bv[0] for b in bv) and E.a[0] == "exists" and self._closed(lp, bv[0]):
                    v = self.vite(E, self._at_first(lp, E, bv[0]), v)
                else:
                    v = mk("post", lp.id, loc)
                    if is_ptr_atom(phi) or base_of(phi)[0] is not None:
                        mark_ptr(v)
            out.env[loc] = v
        self.st = out
        for loc in lp.replaced:
            out.env[loc] = self._some_object(s_before.env[loc])
        for loc in W:
            if self.root(loc)[0].op == "var":
                continue
            if loc in lp.fixed and loc in phis:
                v = out.env.pop(loc)
                self.clobber(loc, v)
                self.st.env[loc] = v
                continue
            if loc in phis and not phis[loc][1]:
                b, path = self.regkey(loc)
                out.ver[(b, path)] = self.fresh()
                continue
            self._forget(loc)
        self._mapstores(lp, self.slog[slog_mark:], s_before, W, start, end)
        if not lp.ret_guards and not end.dead and not getattr(lp, "infinite", False):
            self._system(lp, phis, ind, reds, s_before, start, end, W, cond is not None or rng is not None, post is not None)
        # returns inside the loop: left when some iteration returns
        if R is not None:
            n0 = len(s_before.pc)
            for i in range(nrets0, len(fr.rets)):
                pc, v, st = fr.rets[i]
                g = self._exists(lp, land(*pc[lp.bodypc:])) if len(fr.rets) - nrets0 > 1 else R
                v2 = self._at_first(lp, g, v) if v is not None else None
                st2 = st.fork()
                if g.a[0] == "exists":
                    for k2, x in list(st2.env.items()):
                        if isinstance(x, T) and lp.k in set(walk(x)):
                            st2.env[k2] = self._at_first(lp, g, x)
                fr.rets[i] = (s_before.pc + (g,), v2, st2)
            self.st.pc = s_before.pc + (lnot(R),)
        else:
            self.st.pc = s_before.pc
            if not self.dry and not self.loopstack and lp.trip is None and not lp.brk_guards and (cond or post) and not self.st.dead:
                # the loop was left through its condition: a fact about the state after it
                keep = self.st.fork()
                self.dry += 1
                c1 = (cond or post)()
                self.dry -= 1
                self.st = keep
                if c1 not in (TRUE, FALSE):
                    self.facts.append((s_before.pc, lnot(c1)))
        if getattr(lp, "infinite", False):
            self.st.dead = True

    def _some_object(self, old):
        """an object of which nothing is known, in the place of another"""
        n = mk("new", "any", self.fresh())
        self.objtype[n] = self.objtype.get(old.a[0])
        v = self.fresh()
        self.st.ver[(n, ())] = v
        self.st.ver[(mk("begin", n), ())] = v
        return mk("cobj", n)

    SHORT = 2

    def _short(self, cond, body, inc):
        """the number of iterations, where the condition itself decides it and it is at most SHORT"""
        keep, self.st = self.st, self.st.fork()
        w, self.writes = self.writes, None if self.writes is None else set(self.writes)
        lams, rets, thrown = dict(self.lams), [list(f.rets) for f in self.frames], list(self._thrown_pc)
        self.dry += 1
        n = 0
        try:
            while True:
                self._pass(body, inc)
                n += 1
                if self.st.dead:
                    n = None
                    break
                c = cond()
                if c is FALSE:
                    break
                if c is not TRUE or n == self.SHORT:
                    n = None
                    break
        finally:
            self.dry -= 1
            self.st, self.writes, self.lams, self._thrown_pc = keep, w, lams, thrown
            for f, r in zip(self.frames, rets):
                f.rets[:] = r
        return n

    def _pass(self, body, inc):
        """one iteration, executed in place; the states that leave the loop"""
        ctl = {"cont": [], "brk": [], "pc": self.st.pc}
        self.ctl.append(ctl)
        pc0 = self.st.pc
        body()
        self.ctl.pop()
        self.merge_snaps(ctl["cont"], pc0)
        if inc is not None and not self.st.dead:
            inc()
        return ctl["brk"]

    def _straight(self, cond, body, inc, n):
        pc0 = self.st.pc
        left = []
        for _ in range(n):
            cond()
            left += self._pass(body, inc)
            if self.st.dead:
                break
        else:
            cond()
        self.merge_snaps(left, pc0)

    def _drain(self, qs, cond, body, inc, n):
        """a loop over a queue of at most n elements"""
        was, self.draining = self.draining, self.draining | qs
        pc0 = self.st.pc
        left = []

        def once(k):
            c = cond()
            if c is FALSE or self.st.dead:
                return
            if k == 0:
                return

            def do():
                left.extend(self._pass(body, inc))
                if not self.st.dead:
                    once(k - 1)
            self.branch(c, do, None)
        once(n)
        self.draining = was
        self.merge_snaps(left, pc0)

    def _flatten(self, lp, v):
        """a returned value as a list of scalars and a function that puts it together again"""
        if v.op in ("ref", "cobj", "iobj", "tie", "iloc", "havoc", "undef", "call"):
            return None
        if v.op == "agg":
            fs = [self._flatten(lp, x) for x in v.a[2:]]
            if any(f is None for f in fs):
                return None
            xs = [x for f in fs for x in f[0]]
            cuts = []
            n = 0
            for f in fs:
                cuts.append((n, n + len(f[0])))
                n += len(f[0])
            return xs, lambda ys, v=v, fs=fs, cuts=cuts: agg(v.a[0], v.a[1], [f[1](ys[a:b]) for f, (a, b) in zip(fs, cuts)])
        B, off = base_of(v)
        if B is not None and B is not v:
            if any(x.op == "phi" and x.a[0] == lp.id or x.op == "ld" and x.a[1] >= lp.v0 for x in walk(B)):
                return None
            return [off], lambda ys, B=B: add(B, ys[0])
        if is_ptr_atom(v):
            return None
        if is_bool(v):
            return [toint(v)], lambda ys: truth(ys[0])
        return [v], lambda ys: ys[0]

    def _returned(self, rb, j, v, st):
        w = {rb["flag"]: const(j + 1)}
        if j >= len(rb["vals"]):
            w[rb["flag"]] = mk("undef", "return", j)
        elif v is not None:
            f = self._flatten(rb["lp"], v)
            if f is None or len(f[0]) != len(rb["vals"][j]):
                w[rb["flag"]] = mk("undef", "return", j)
            else:
                w.update(zip(rb["vals"][j], f[0]))
        for loc, x in w.items():
            st.env[loc] = x
            if self.writes is not None:
                self.writes.add(loc)

    def _returning(self, s, kind, cond, body, inc, post, rng, flat):
        """a loop that returns from its middle: the return is a break that remembers which one it was and with what value"""
        fr = self.fr
        u = self.fresh()
        lp = Loop(-1, s["l"], fr.fn, kind)
        lp.v0 = u
        flag = mk("var", "#ret", u)
        vals = [[mk("var", "#ret%d_%d" % (j, i), u) for i in range(len(f[0]))] for j, f in enumerate(flat)]
        self.st.env[flag] = ZERO
        for j, f in enumerate(flat):
            for loc, x in zip(vals[j], f[0]):
                self.st.env[loc] = ZERO
        before = self.st.pc
        saved = getattr(self, "retbreak", None)
        self.retbreak = {"depth": len(self.loopstack), "frame": fr, "flag": flag, "vals": vals, "lp": lp}
        endless = cond is None and post is None and rng is None
        last = {}
        self.retbreak["last"] = last
        try:
            self.loop(s, kind, cond, body, inc, post, rng)
        finally:
            self.retbreak = saved
        if self.st.dead:
            return
        fv = self.st.env.get(flag)
        out = self.st
        for j, f in enumerate(flat):
            g = eq(fv, const(j + 1))
            if g is FALSE:
                continue
            st = out.fork()
            st.pc = before + (g,)
            v = f[1]([out.env.get(x) for x in vals[j]]) if f[1] else None
            fr.rets.append((st.pc, v, st))
        g = eq(fv, ZERO)
        out.pc = before + (g,) if g is not TRUE else before
        if endless and not last.get("breaks"):
            out.dead = True

    def _mapstores(self, lp, log, before, W, start, end):
        """what a whole loop did to the elements of the arrays it wrote (replaces the opaque layer where it is understood)"""
        if lp.trip is None or lp.brk_guards or lp.ret_guards or end.dead:
            return
        keys = {}
        for w in W:
            if w.op == "iloc" or self.root(w)[0].op == "var":
                continue
            if self.root(w)[0].op == "deref":
                keys.setdefault(self.regkey(w), []).append(w)
        ents = {}
        for ent in log:
            if ent[0].op != "iloc" and self.root(ent[0])[0].op == "deref" and ent[4] == self.dry:
                ents.setdefault(self.regkey(ent[0]), []).append(ent)
        newl = {}

        def mine(b):
            return sum(1 for k in keys if k[0] is b)
        self._own = self._own_cells(lp, keys, ents, before, start)
        for key in keys:
            b, path = key
            if b is None or b.op in ("anymem", "mapmem"):
                continue
            if any(k2[0] is b and k2 != key and (k2[1][:len(path)] == path or path[:len(k2[1])] == k2[1]) for k2 in keys):
                newl.setdefault(b, []).append(("op", path, self.st.ver[key]) if path and key in self.st.ver else None)
                continue
            pm = self._shuffle(lp, b, path, ents.get(key, []))
            if pm is not None:
                newl.setdefault(b, []).append(pm)
                continue
            tr = self._transformer(lp, b, path, W, start, end)
            if tr == "same":
                newl.setdefault(b, [])
                continue
            mp = self._mapping(lp, key, ents.get(key, []), W, tr)
            L = mp or tr
            if L is None and path and mine(b) > 1 and key in self.st.ver:
                L = ("op", path, self.st.ver[key])
            newl.setdefault(b, []).append(L)
        for b, ls in newl.items():
            if any(l is None for l in ls) or (ls and all(l[0] == "op" for l in ls)):
                continue
            if b not in self.st.lay:
                continue
            old = before.lay.get(b)
            if old is None:
                sv = self.st
                self.st = before
                old = (self._base_layer(b),)
                self.st = sv
            if len(old) + len(ls) > 24:
                continue
            self.st.lay[b] = old + tuple(ls)
            self._other_elements(b)

    def _system(self, lp, phis, ind, reds, before, start, end, W, has_cond, has_post):
        """whatever the special forms did not cover: the written variables and arrays as one system of recurrences, each next
        value (for arrays: of the element at a symbolic position) in terms of the values at the head of the iteration"""
        unclear = lambda v: isinstance(v, T) and any(x.op in ("post", "trip") and x.a[0] == lp.id or x.op == "bool" and x.a[0] == "someiter" and x.a[1] == lp.id for x in walk(v))
        # the parts of the variables
        atoms, parts = {}, {}
        for loc, (phi, isreg) in phis.items():
            if isreg:
                continue
            init = before.env.get(loc)
            if init is None and self.root(loc)[0].op != "var":
                sv, self.st = self.st, before.fork()
                init = self.load(loc)
                self.st = sv
            e = end.env.get(loc)
            if init is None or e is None:
                continue
            if loc in ind or loc in reds:
                parts[loc] = [phi]
            elif phi.op == "phi":
                parts[loc] = [phi]
                atoms[phi] = (init, e)
            elif phi.op == "agg" and init.op == "agg" and e.op == "agg" and phi.a[1] == init.a[1] == e.a[1]:
                parts[loc] = list(phi.a[2:])
                for a, i, x in zip(phi.a[2:], init.a[2:], e.a[2:]):
                    atoms[a] = (i, x)
            elif phi.op == "poly":
                B, off = base_of(phi)
                i, x = self._off(init, B), self._off(e, B)
                if B is not None and i is not None and x is not None:
                    parts[loc] = [off]
                    atoms[off] = (i, x)
        outS = [loc for loc in phis if not phis[loc][1] and unclear(self.st.env.get(loc))]
        regs = {}
        for w in W:
            if w.op != "iloc" and self.root(w)[0].op == "deref":
                k = self.regkey(w)
                if k[0] is not None and k[0].op not in ("anymem", "mapmem"):
                    regs.setdefault(k, None)
        outR = [k for k in regs if any(L[0] == "op" and L[1] == k[1] and L[2] >= lp.v0 for L in self.st.lay.get(k[0], ())[1:])]
        if not outS and not outR:
            return
        O = mark_nn(mk("osym", lp.id))
        at = {}

        def content(key, st):
            loc = deref(add(key[0], O))
            for x in key[1]:
                loc = fld(loc, x)
            sv, self.st = self.st, st.fork()
            v = self.load(loc)
            self.st = sv
            return v
        obj = ("cobj", "iobj", "ref", "tie", "iloc")
        for k in regs:
            if any(x is lp.k or x.op == "phi" and x.a[0] == lp.id or x.op == "ld" and x.a[1] >= lp.v0 for x in walk(k[0])):
                continue
            if any(k2[0] is k[0] and k2 != k and (k2[1][:len(k[1])] == k[1] or k[1][:len(k2[1])] == k2[1]) for k2 in regs):
                continue
            v0, i, n = content(k, start), content(k, before), content(k, end)
            if v0.op == "ld" and v0.a[1] >= lp.v0 and i.op not in obj and n.op not in obj:
                at[k] = (v0.a[1], i, n)
        trip = lp.trip if lp.trip is not None and not unclear(lp.trip) and self._closed(lp, lp.trip) else None
        cond = lp.cond if trip is None and has_cond else None
        if trip is None and has_cond and lp.cond is None:
            return
        brk = lor(*lp.brk_guards) if lp.brk_guards else None

        def brk_value(get):
            vs = [get(b) for b in lp.brk_states]
            if any(v is None or v.op in obj for v in vs):
                return None
            r = vs[-1]
            for g, v in list(zip(lp.brk_guards, vs))[:-1][::-1]:
                r = ite(g, v, r)
            return r

        class No(Exception):
            pass

        def make(outs, reg=None):
            """outs: [(value at the loop head, value when left by break)]"""
            terms, need, rneed = [], [], []
            todo = [x for o in outs for x in o if x is not None]
            if trip is None:
                todo += [x for x in (cond, lp.postcond if has_post else None) if x is not None]
            if brk is not None:
                todo.append(brk)
            if reg is not None:
                rneed.append(reg)
                todo += [at[reg][2]]
                terms.append(at[reg][1])
            seen = set()
            while todo:
                t = todo.pop(0)
                terms.append(t)
                for x in walk(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op in ("call", "havoc", "undef", "callref", "opaque") or x.op in obj or x.op in ("post", "trip") and x.a[0] == lp.id or x.op == "bool" and x.a[0] == "someiter":
                        raise No()
                    if x.op == "phi" and x.a[0] == lp.id:
                        if x not in atoms or atoms[x][1].op in obj + ("agg",) or atoms[x][0].op in obj + ("agg",):
                            raise No()
                        if x not in need:
                            need.append(x)
                            todo.append(atoms[x][1])
                            terms.append(atoms[x][0])
                    if x.op == "ld" and x.a[1] >= lp.v0:
                        k = self._state_read(x, at)
                        if k is None:
                            raise No()
                        if k not in rneed:
                            rneed.append(k)
                            todo.append(at[k][2])
                            terms.append(at[k][1])
                    if x.op == "size" and x.a[1] >= lp.v0:
                        raise No()
            d = max([x.a[0] for t in terms for x in walk(t) if x.op == "bv"] + [0])
            b = mk("bv", d + 1)
            nm = {p: "p%d" % j for j, p in enumerate(need)}
            rn = {k: "r%d" % j for j, k in enumerate(rneed)}
            rep = {lp.k: mk("sel", b, "k"), O: mark_nn(mk("sel", b, "O"))}
            for p in need:
                r = rep[p] = mk("sel", b, nm[p])
                if p in FL:
                    FL.add(r)
                if is_ptr_atom(p):
                    mark_ptr(r)
                if p in nn_set():
                    mark_nn(r)

            def f(t):
                if t in rep:
                    return rep[t]
                if t.op == "ld" and t.a[1] >= lp.v0:
                    k = self._state_read(t, at)
                    r_, path = self.root(t.a[0])
                    o = base_of(r_.a[0])[1]
                    v = mk("rd", b, rn[k], subst(o, f, memo))
                    if t in FL:
                        FL.add(v)
                    if t in nn_set():
                        mark_nn(v)
                    if is_ptr_atom(t):
                        mark_ptr(v)
                    for x in path[len(k[1]):]:
                        v = sel(v, x)
                    return v
                return None
            memo = {}
            fields = [(nm[p], subst(atoms[p][1], f, memo)) for p in need]
            for k in rneed:
                fields += [("i" + rn[k], subst(at[k][1], f, memo)), ("n" + rn[k], subst(at[k][2], f, memo))]
            for j, (e, x) in enumerate(outs):
                fields.append(("e%d" % j, subst(e, f, memo)))
                if x is not None:
                    fields.append(("x%d" % j, subst(x, f, memo)))
            if reg is not None and brk is not None:
                x = brk_value(lambda st: content(reg, st))
                if x is None:
                    raise No()
                fields.append(("xr0", subst(x, f, memo)))
            if trip is None and cond is not None:
                fields.append(("cond", subst(cond, f, memo)))
            if trip is None and has_post:
                fields.append(("post", subst(lp.postcond, f, memo)))
            if brk is not None:
                fields.append(("brk", subst(brk, f, memo)))
            body = with_bv(mk("agg", "gfix", tuple(n for n, v in fields), *[toint(v) for n, v in fields]), b)
            init = mk("agg", "gfix", tuple(nm[p] for p in need), *[toint(atoms[p][0]) for p in need])
            return trip if trip is not None else INF, init, body

        def scalar(loc):
            phi = phis[loc][0]
            if loc not in parts:
                raise No()
            vals = []
            for j, a in enumerate(parts[loc]):
                x = None
                if brk is not None:
                    def get(st, j=j):
                        v = st.env.get(loc)
                        if v is None:
                            return None
                        if phi.op == "agg":
                            return sel(v, phi.a[1][j])
                        if phi.op == "poly" and loc not in ind and loc not in reds:
                            return self._off(v, base_of(phi)[0])
                        return v
                    x = brk_value(get)
                    if x is None:
                        raise No()
                stop, init, body = make([(a, x)])
                v = mk("gfix", stop, init, body, "0")
                if a in FL:
                    FL.add(v)
                if a in nn_set() or phi.op == "poly":
                    mark_nn(v)
                if is_ptr_atom(a) or a.op == "poly" and base_of(a)[0] is not None:
                    mark_ptr(v)
                vals.append(v)
            if loc in ind or loc in reds or phi.op == "phi":
                return vals[0]
            if phi.op == "agg":
                return agg(phi.a[0], phi.a[1], vals)
            return add(base_of(phi)[0], vals[0])
        for loc in outS:
            try:
                v = scalar(loc)
            except No:
                continue
            if self.root(loc)[0].op != "var":
                ov = self.st.env.get(loc)
                if ov is None:
                    continue
            self.st.env[loc] = v
        for k in outR:
            if k not in at:
                continue
            try:
                g = mk("gfix", *(make([], k) + ("r0",)))
            except No:
                continue
            self.st.lay[k[0]] = tuple(("G", k[1], g, at[k][0]) if L[0] == "op" and L[1] == k[1] and L[2] >= lp.v0 else L for L in self.st.lay[k[0]])

    def _off(self, v, b):
        if v.op == "ite":
            x, y = self._off(v.a[1], b), self._off(v.a[2], b)
            return None if x is None or y is None else ite(v.a[0], x, y)
        c, o = base_of(v)
        return o if c is b and b is not None else None

    def _state_read(self, t, at):
        """the array of a system of recurrences a load at the head of the iteration reads"""
        r, path = self.root(t.a[0])
        if r.op != "deref":
            return None
        b = base_of(r.a[0])[0]
        for k, (v, i, n) in at.items():
            if k[0] is b and path[:len(k[1])] == k[1] and t.a[1] == v:
                return k
        return None

    def _own_scalars(self, lp, wrote, before, start, end):
        """values of the variables after an iteration, with reads of cells only this iteration writes replaced by the values before the loop"""
        keys = {}
        for w in wrote:
            if w.op != "iloc" and self.root(w)[0].op == "deref":
                keys.setdefault(self.regkey(w), []).append(w)
        if not keys or any(k[0] is None for k in keys):
            return
        own = self._own_cells(lp, keys, {k: [(w, None, None, ())] for k, ws in keys.items() for w in ws[:1] if all(x is w for x in ws)}, before, start)
        if not own:
            return
        mp = {a: v for a, (k, v) in own.items()}
        for loc, v in list(end.env.items()):
            if isinstance(v, T) and (loc.op == "var" or (loc.op == "fld" and loc.a[1] == "#size")) and v.op not in ("cobj", "iobj", "ref", "tie", "iloc", "c", "arg") and any(x in mp for x in walk(v)):
                end.env[loc] = subst(v, lambda t: mp.get(t) if t.op == "ld" else None)

    def _own_cells(self, lp, keys, ents, before, start):
        """arrays each iteration writes at one position of its own only: what an iteration reads there is the value before the loop"""
        out = {}
        for key in keys:
            es = ents.get(key, [])
            if not es or any(e[0] is not es[0][0] or (e[3] and e[3][-1] is not lp) for e in es):
                continue
            loc = es[0][0]
            off = base_of(self.root(loc)[0].a[0])[1]
            if off is None or key[0] is None or any(k2[0] is key[0] and k2 != key and (k2[1][:len(key[1])] == key[1] or key[1][:len(k2[1])] == k2[1]) for k2 in keys):
                continue
            d = poly(off)
            if not self._closed(lp, off) or any(x.op == "ld" and x.a[1] >= getattr(lp, "v0", 0) or x.op in ("call", "havoc", "post", "undef") for x in walk(off)):
                continue
            if not (off.op == "mkey" and off.a[1] is lp.k) and \
                    (any(lp.k in set(walk(a)) and a is not lp.k for m in d for a in m) or set(m for m in d if lp.k in m) != {(lp.k,)}):
                continue
            sv = self.st
            self.st = start.fork()
            a = self.load(loc)
            self.st = before.fork()
            b = self.load(loc)
            self.st = sv
            if a.op == "ld" and a is not b and b.op not in ("agg", "cobj", "iobj", "ref", "tie", "upd"):
                out[a] = (key, b)
        return out

    def _shuffle(self, lp, b, path, ents):
        """swap(x[k], x[draw(lo <= k .. size-1)]): any rearrangement of the elements"""
        sw = [e for e in self.effects if e.kind == "swap" and e.loops and e.loops[-1] is lp and any(self.regkey(l)[0] is b for l in e.args)]
        if len(sw) != 1 or len(ents) != 2 or path or b.op != "begin" or {id(x[0]) for x in ents} != {id(x) for x in sw[0].args}:
            return None
        offs = [base_of(self.root(l)[0].a[0])[1] for l in sw[0].args]
        n = self.st.env.get(fld(b.a[0], "#size"))
        if n is None:
            return None
        for x, y in (offs, offs[::-1]):
            if x is lp.k and y is not None and y.op == "draw" and y.a[0].a[0] == "int":
                _, lo, hi = y.a[0].a
                if sub(hi, n) is const(-1) and nonneg(lo) and (lo is x or nonneg(sub(x, lo))):
                    return ("perm", path, self.fresh(), n)
        return None

    def _transformer(self, lp, b, path, W, start, end):
        """value of the element at symbolic offset O after the loop as a function of its value before"""
        O = name(mk("osym", lp.id), "O%d" % lp.id)
        mark_nonneg(O)
        loc = deref(add(b, O))
        for x in path:
            loc = fld(loc, x)
        sv = self.st
        self.st = start.fork()
        OLD = self.load(loc)
        self.st = end.fork()
        E = self.load(loc)
        self.st = sv
        if E is OLD:
            return "same"
        if E.op not in ("cobj", "iobj", "ref", "tie"):
            inr0 = lt(lp.k, lp.trip, True)
            E = subst(E, lambda t: TRUE if t is inr0 else None)
        own = {a: v for a, (kk, v) in getattr(self, "_own", {}).items() if kk != (b, path)}
        if own and E.op not in ("cobj", "iobj", "ref", "tie"):
            E = subst(E, lambda t: own.get(t) if t.op == "ld" else None)
        if OLD.op == "ld":
            E = self._same_cell(E, OLD, O, b, path)
        if OLD.op != "ld" or E.op in ("agg", "cobj", "iobj", "ref", "tie", "upd"):
            return None
        n = lp.trip
        def ok(x):
            return OLD not in set(walk(x)) and self._closed(lp, x) and self._invariant(x, lp, W)
        def done(v):
            return ("T", path, v, OLD, O)
        # each element is touched by one iteration only, k = f(O)
        seen = set()
        for p in walk(E):
            if p.op != "eq" or p in seen or O not in set(walk(p)) or lp.k not in set(walk(p)) or not ok(p):
                continue
            seen.add(p)
            sol = self._solved(lp, O, p)
            if sol is None or lp.k in set(walk(sol[0])):
                continue
            if subst(E, lambda t: FALSE if t is p else None) is not OLD:
                continue
            E1 = self._same_cell(ite(p, subst(E, lambda t: TRUE if t is p else None), OLD), OLD, O, b, path)
            E1 = E1.a[1] if E1.op == "ite" and E1.a[0] is p else E1.a[2] if E1.op == "ite" and E1.a[2] is not OLD else E1
            sb = lambda t: subst(t, lambda z: sol[0] if z is lp.k else None)
            E1 = sb(E1)
            if self._closed(lp, E1) and self._invariant(subst(E1, lambda t: ZERO if t is OLD else None), lp, W):
                return done(ite(sol[2], E1, OLD))
        # accumulated sum
        def dlt(e):
            if e is OLD:
                return ZERO
            if e.op == "ite":
                if not ok(e.a[0]):
                    return None
                x, y = dlt(e.a[1]), dlt(e.a[2])
                return None if x is None or y is None else ite(e.a[0], x, y)
            d = diff(e, OLD)
            if d is not None and ok(d):
                return d
            if e.op == "poly":
                has = [(m, c) for m, c in e.a[0] if any(OLD in set(walk(a)) for a in m)]
                if len(has) == 1 and len(has[0][0]) == 1 and has[0][1] == 1 and has[0][0][0].op == "ite":
                    a = has[0][0][0]
                    x, rest = dlt(a), sub(e, a)
                    return add(x, rest) if x is not None and ok(rest) else None
            return None
        d = dlt(E)
        if d is not None:
            s1 = self._at_solved(lp, O, d, ZERO)
            if s1 is not None:
                return done(add(OLD, s1))
            body, bv = self._lam(lp, d)
            return done(add(OLD, tsum(n, body, bv)))
        # running extremum
        if E.op == "ite":
            r = self._ext_red(lp, OLD, OLD, E, W, True)
            if r is not None:
                flt = r[5] if len(r) > 5 else TRUE
                return done(self._red_value(lp, r, n))
            # conditions common to the whole update
            c, x, y = E.a
            if ok(c) and (x is OLD or y is OLD):
                g, inner = (c, x) if y is OLD else (lnot(c), y)
                sol = self._solved(lp, O, g)
                if sol is not None:
                    k, rest, inr = sol
                    if self._closed(lp, inner) and self._invariant(subst(inner, lambda t: ZERO if t is OLD else None), lp, W):
                        sb = lambda t: subst(t, lambda z: k if z is lp.k else None)
                        return done(ite(land(inr, sb(rest)), sb(inner), OLD))
                if inner.op == "ite":
                    r = self._ext_red(lp, OLD, OLD, ite(land(g, inner.a[0]), inner.a[1], OLD) if inner.a[2] is OLD else ite(land(g, lnot(inner.a[0])), inner.a[2], OLD) if inner.a[1] is OLD else E, W, True)
                    if r is not None:
                        return done(self._red_value(lp, r, n))
                if ok(inner):
                    # the last iteration that writes decides
                    body, bv = self._lam(lp, agg("ext", ("x", "if", "y"), [lp.k, toint(g), inner]))
                    return done(mk("atmax", OLD, const(-1), n, body, mk("nonstrict")))
        if ok(E):
            return done(ite(lt(ZERO, n, True), subst(E, lambda t: sub(n, ONE) if t is lp.k else None), OLD))
        # any other update of an element from its own value
        E0 = subst(E, lambda t: ZERO if t is OLD else None)
        if self._closed(lp, E0) and self._invariant(E0, lp, W):
            p = mk("phi", lp.id, loc)
            if OLD in FL:
                FL.add(p)
            if OLD in nn_set():
                mark_nn(p)
            return done(self._fold_value(lp, ([p], {p: "p0"}, {p: (OLD, subst(E, lambda t: p if t is OLD else None))}), p, n))
        return None

    def _same_cell(self, e, OLD, O, b, path, eqs=()):
        """inside a branch taken when O == X, the old value at X is the old value at O"""
        if e.op != "ite":
            if not eqs:
                return e
            if e.op == "poly" and any(a.op == "ite" and any(t.op == "ld" and t.a[1] == OLD.a[1] for t in walk(a)) for m, c in e.a[0] for a in m):
                mp = {a: self._same_cell(a, OLD, O, b, path, eqs) for m, c in e.a[0] for a in m if a.op == "ite"}
                e = subst(e, lambda t: mp.get(t) if t.op == "ite" else None)
            zs = [z for p in eqs for z in (p, neg(p))]
            zs += [add(x, y) for i, x in enumerate(zs) for y in zs[i + 1:] if add(x, y) is not ZERO][:60]
            zs = set(zs)
            def f(t):
                if t.op == "ld" and t is not OLD and t.a[1] == OLD.a[1]:
                    r, pt = self.root(t.a[0])
                    if r.op == "deref" and pt == path:
                        b2, o2 = base_of(r.a[0])
                        if b2 is b and sub(o2, O) in zs:
                            return OLD
                return None
            return subst(e, f)
        c, x, y = e.a
        pos = tuple(p.a[0] for p in (c.a if c.op == "and" else (c,)) if p.op == "eq")
        g = lnot(c)
        ngs = tuple(p.a[0] for p in (g.a if g.op == "and" else (g,)) if p.op == "eq")
        return ite(c, self._same_cell(x, OLD, O, b, path, eqs + pos), self._same_cell(y, OLD, O, b, path, eqs + ngs))

    def _solved(self, lp, O, g):
        """g implies k == f(O): (f(O), remaining condition, 0 <= f(O) < n)"""
        parts = g.a if g.op == "and" else (g,)
        for p in parts:
            if p.op != "eq":
                continue
            d = poly(p.a[0])
            mks = {x for x in walk(p.a[0]) if x.op == "mkey" and x.a[1] is lp.k}
            if len(mks) == 1:
                # the keys of a map the loop traverses: met by the iteration of that key, when the map has it
                mk_, = mks
                c = d.get((mk_,))
                rest = unpoly({m: v for m, v in d.items() if m != (mk_,)})
                if c in (1, -1) and mk_.a[2] == 0 and lp.k not in set(walk(rest)) and lp.trip is mk("size", mk_.a[0], mk_.a[2]):
                    o = neg(rest) if c == 1 else rest
                    inr = truth(mk("ld", fld(deref(add(mk("begin", mk_.a[0]), o)), "#in"), mk_.a[2]))
                    return mark_nn(mk("midx", mk_.a[0], o, mk_.a[2])), land(*[q for q in parts if q is not p]), inr
            cs = [(m, v) for m, v in d.items() if lp.k in m]
            if len(cs) != 1 or cs[0][0] != (lp.k,) or cs[0][1] not in (1, -1):
                continue
            rest = unpoly({m: v for m, v in d.items() if m != (lp.k,)})
            if lp.k in set(walk(rest)):
                continue
            k = neg(rest) if cs[0][1] == 1 else rest
            inr = land(TRUE if _nonneg(k) else le(ZERO, k, True), lt(k, lp.trip, True))
            return k, land(*[q for q in parts if q is not p]), inr
        return None

    def _at_solved(self, lp, O, d, other):
        if d.op != "ite":
            return None
        for g, x, y in ((d.a[0], d.a[1], d.a[2]), (lnot(d.a[0]), d.a[2], d.a[1])):
            if y is not other:
                continue
            s = self._solved(lp, O, g)
            if s is not None:
                k, rest, inr = s
                sb = lambda t: subst(t, lambda z: k if z is lp.k else None)
                return ite(land(inr, sb(rest)), sb(x), other)
        return None

    def _mapping(self, lp, key, ents, W, tr):
        b, path = key
        if len(ents) != 1:
            return None
        loc, val, pc, loops = ents[0][:4]
        inner = loops[loops.index(lp):] if lp in loops else (lp,)
        if len(inner) == 1 and tr is not None and not any(x.op == "atmax" for x in walk(tr[2])):
            return None
        if any(l.trip is None or l.brk_guards or l.ret_guards for l in inner if l is not lp):
            return None
        r, _ = self.root(loc)
        off = base_of(r.a[0])[1]
        ks = [l.k for l in inner]
        if off is None or not all(k in set(walk(off)) for k in ks):
            return None
        guard = land(*pc[lp.bodypc:])
        guard = land(*[x for x in (guard.a if guard.op == "and" else (guard,)) if not any(x is l.cond or x in (l.cond.a if l.cond is not None and l.cond.op == "and" else ()) for l in inner if l is not lp)])
        for t in list(walk(val)) + list(walk(guard)) + list(walk(off)):
            if t.op == "phi" and t.a[0] in {l.id for l in inner}:
                return None
            if t.op == "ld" and self.root(t.a[0])[0].op == "deref" and self.regkey(t.a[0])[0] is b:
                if t.a[0] is loc:
                    continue
                return None
            if t.op == "ld" and t.a[0] is not loc and any(w.op != "iloc" and self.regkey(w)[0] is self.regkey(t.a[0])[0] and self.regkey(w)[0] is not b for w in W):
                return None
            if t.op in ("undef", "havoc"):
                return None
        if val.op in ("cobj", "iobj", "tie"):
            return None
        # reads of the element itself denote its value before the loop
        old = mk("oldelt")
        val2 = subst(val, lambda t: old if t.op == "ld" and t.a[0] is loc else None)
        guard = subst(guard, lambda t: old if t.op == "ld" and t.a[0] is loc else None)
        dims = [(l.k, l.trip) for l in inner]
        if solve_index(off, ks, off) is None:
            return None
        return ("map", path, off, tuple(dims), guard, val2, tr)

    def _classify(self, lp, phis, s_before, end, W, ind, reds):
        for loc, (phi, isreg) in phis.items():
            if isreg or loc in ind or loc in reds:
                continue
            init = s_before.env.get(loc)
            if init is None and self.root(loc)[0].op != "var":
                init = self.load(loc)
            e = end.env.get(loc) if not end.dead else None
            if init is None or e is None:
                continue
            if e.op == "agg" or phi.op == "agg" or e.op in ("cobj", "iobj", "ref", "tie") or is_bool(e) or is_bool(init):
                red = self._bool_red(lp, loc, init, phi, e, W)
                if red is not None:
                    reds[loc] = red
                continue
            mr = self._ext_red(lp, init, phi, e, W)
            if mr is not None:
                reds[loc] = mr
                continue
            mr = self._best_at(lp, init, phi, e, W)
            if mr is not None:
                reds[loc] = mr
                continue
            d = diff(e, phi)
            if d is not None and d.op == "c" and d.a[0] != 0:
                ind[loc] = (init, d)
            elif d is not None and d.op == "c":
                ind[loc] = (init, ZERO)
            elif d is not None and not any(x.op in ("phi", "k") and x.a[0] == lp.id for x in walk(d)) and self._invariant(d, lp, W):
                ind[loc] = (init, d)
            elif d is not None and not any(x.op == "phi" and x.a[0] == lp.id for x in walk(d)) and self._invariant(d, lp, W):
                reds[loc] = ("sum", init, d)
        for loc, (phi, isreg) in phis.items():
            if isreg or loc in ind or loc in reds or end.dead:
                continue
            e, init = end.env.get(loc), s_before.env.get(loc)
            if e is None or init is None:
                continue
            if init.op == "agg" and e.op == "agg" and phi.op == "agg" and e.a[1] == phi.a[1] == init.a[1]:
                comps = {}
                for n, i0, p0, e0 in zip(init.a[1], init.a[2:], phi.a[2:], e.a[2:]):
                    comps[n] = self._ext_red(lp, i0, p0, e0, W) or (("same", i0, None) if e0 is p0 else None)
                exts = [c for c in comps.values() if c is not None and c[0] in ("min", "max")]
                for n, i0, p0, e0 in zip(init.a[1], init.a[2:], phi.a[2:], e.a[2:]):
                    if comps[n] is None and len(exts) == 1:
                        comps[n] = self._companion(lp, i0, p0, e0, exts[0], W)
                if all(c is not None for c in comps.values()) and exts:
                    reds[loc] = ("agg", init, comps)
            else:
                exts = [r for r in reds.values() if r[0] in ("min", "max")]
                for x in exts:
                    c = self._companion(lp, init, phi, e, x, W)
                    if c is not None:
                        reds[loc] = c
                        break

    def _recurrence(self, lp, phis, s_before, end, W, ind, reds, left):
        """the remaining written locations as one system of recurrences: each next value is a closed function of the iteration
        number and of the current values of the system"""
        sysv = {}
        for loc in left:
            phi = phis[loc][0]
            init = s_before.env.get(loc)
            if init is None and self.root(loc)[0].op != "var":
                init = self.load(loc)
            e = end.env.get(loc)
            if init is None or e is None:
                continue
            if phi.op == "agg" and init.op == "agg" and e.op == "agg" and phi.a[1] == init.a[1] == e.a[1]:
                sysv[loc] = [(p, i, x) for p, i, x in zip(phi.a[2:], init.a[2:], e.a[2:])]
            elif phi.op == "phi" and init.op not in ("agg", "cobj", "iobj", "ref", "tie", "iloc") and e.op not in ("agg", "cobj", "iobj", "ref", "tie", "iloc"):
                sysv[loc] = [(phi, init, e)]
        while True:
            mine = {p for v in sysv.values() for p, i, e in v}
            bad = [loc for loc, v in sysv.items()
                   if any(p.op != "phi" or (is_ptr_atom(p) and lp.trip is not None) or not self._invariant(e, lp, W) or any(x.op in ("agg", "cobj", "iobj", "ref") for x in (i, e))
                          or any(x.op == "phi" and x.a[0] == lp.id and x not in mine for x in walk(e)) for p, i, e in v)]
            if not bad:
                break
            for loc in bad:
                del sysv[loc]
        if not sysv:
            return False
        # only what a component needs
        comp = {p: (i, e) for v in sysv.values() for p, i, e in v}
        for loc, v in sysv.items():
            need, todo = [], [p for p, i, e in v]
            while todo:
                p = todo.pop()
                if p in need:
                    continue
                need.append(p)
                todo.extend(x for x in walk(comp[p][1]) if x in comp)
            need.sort(key=lambda p: p.id)
            names = {p: "p%d" % j for j, p in enumerate(need)}
            system = (need, names, comp)
            if phis[loc][0].op == "agg":
                reds[loc] = ("foldagg", s_before.env.get(loc), system, [p for p, i, e in v])
            else:
                reds[loc] = ("fold", v[0][1], system, v[0][0])
        return True

    def _fold_value(self, lp, system, which, n):
        need, names, comp = system
        d = 0
        for p in need:
            for x in walk(comp[p][1]):
                if x.op == "bv":
                    d = max(d, x.a[0])
        b = mk("bv", d + 1)
        rep = {lp.k: mk("sel", b, "k")}
        for p in need:
            rep[p] = mk("sel", b, names[p])
            if p in FL:
                FL.add(rep[p])
            if is_ptr_atom(p):
                mark_ptr(rep[p])
            if p in nn_set():
                mark_nn(rep[p])
        ns = tuple(names[p] for p in need)
        body = mk("agg", "fold", ns, *[subst(comp[p][1], lambda t: rep.get(t)) for p in need])
        body = with_bv(body, b)
        init = mk("agg", "fold", ns, *[comp[p][0] for p in need])
        v = fold(n, init, body, names[which])
        if v.op == "fold":
            i0, e0 = comp[which]
            if isint(i0) and which in nn_set() and not which in FL:
                mark_nn(v)
            if is_ptr_atom(which):
                mark_ptr(v)
        return v

    def _closed(self, lp, v):
        """a value that depends on the iteration only through its number"""
        return not any(x.op == "phi" and x.a[0] == lp.id for x in walk(v))

    def _lam(self, lp, body):
        """abstract the iteration number"""
        d = 0
        for x in walk(body):
            if x.op == "bv":
                d = max(d, x.a[0])
        b = name(mk("bv", d + 1), "i%d" % (d + 1))
        return with_bv(subst(body, lambda t: b if t is lp.k else None), b), b

    def _exists(self, lp, g):
        if g is TRUE and lp.trip is not None:
            return mk("bool", "exists", lp.trip, TRUE)
        if lp.trip is None or not self._closed(lp, g):
            return mk("bool", "someiter", lp.id, g)
        body, b = self._lam(lp, g)
        return mk("bool", "exists", lp.trip, body)

    def _at_first(self, lp, E, v):
        if E.op != "bool" or E.a[0] != "exists":
            return v
        return subst(v, lambda t: mk("firstk", E) if t is lp.k else None)

    def _bool_red(self, lp, loc, init, phi, e, W):
        """conjunctions / disjunctions accumulated in a flag: e = phi && c(k), phi || c(k)"""
        if phi.op == "agg" or e.op == "agg":
            return None
        ph = phi
        cand = None
        tp = truth(ph)
        if e.op == "and" and (tp in e.a or ph in e.a):
            cand = ("all", init, land(*[x for x in e.a if x is not tp and x is not ph]))
        elif e.op == "or" and (tp in e.a or ph in e.a):
            cand = ("any", init, lor(*[x for x in e.a if x is not tp and x is not ph]))
        elif e.op == "ite" and e.a[2] is ph and is_bool(e.a[1]) and e.a[1] in (TRUE, FALSE):
            cand = ("any", init, e.a[0]) if e.a[1] is TRUE else ("all", init, lnot(e.a[0]))
        elif e.op == "ite" and e.a[1] is ph and e.a[2] in (TRUE, FALSE):
            cand = ("any", init, lnot(e.a[0])) if e.a[2] is TRUE else ("all", init, e.a[0])
        if cand is None or not self._closed(lp, cand[2]) or not self._invariant(cand[2], lp, W):
            return None
        return cand

    def _ext_red(self, lp, init, phi, e, W, elt=False):
        """running minimum / maximum: e = x < phi ? x : phi"""
        if e.op != "ite" or phi.op != "phi" and not elt:
            return None
        c, a, b = e.a
        if b is phi:
            x, cond = a, c
        elif a is phi:
            x, cond = b, lnot(c)
        else:
            return None
        if phi in set(walk(x)) or not self._closed(lp, x) or not self._invariant(x, lp, W):
            return None
        for kind, strict, g in (("min", True, lt(x, phi)), ("min", False, le(x, phi)), ("max", True, lt(phi, x)), ("max", False, le(phi, x)),
                                ("min", True, lt(x, phi, True)), ("min", False, le(x, phi, True)), ("max", True, lt(phi, x, True)), ("max", False, le(phi, x, True))):
            if cond is g:
                return (kind, init, x, strict, cond)
            # extra conditions: the element takes part only when they hold
            parts = cond.a if cond.op == "and" else ()
            if g in parts:
                rest = land(*[p for p in parts if p is not g])
                if self._closed(lp, rest) and self._invariant(rest, lp, W):
                    return (kind, init, x, strict, cond, rest)
        return None

    def _best_at(self, lp, init, phi, e, W):
        """running position of an extremum: e = g(x) < g(phi) ? x : phi"""
        if e.op != "ite":
            return None
        ps = [x for x in walk(phi) if x.op == "phi" and x.a[0] == lp.id]
        if len(ps) != 1:
            return None
        p = ps[0]
        base = sub(phi, p)
        if p in set(walk(base)) or any(x.op in ("agg", "cobj", "iobj", "ref", "tie", "iloc") for x in (init, e)):
            return None
        c, a, b = e.a
        if b is phi:
            x, cond = a, c
        elif a is phi:
            x, cond = b, lnot(c)
        else:
            return None
        x, i0 = sub(x, base), sub(init, base)
        if p in set(walk(x)) or not self._closed(lp, x) or not self._invariant(x, lp, W):
            return None
        if cond.op == "lt":
            d, strict = cond.a[0], True
        elif cond.op == "not" and cond.a[0].op == "lt":
            d, strict = neg(cond.a[0].a[0]), False
        else:
            return None
        pp = unpoly({m: v for m, v in poly(d).items() if any(p in set(walk(y)) for y in m)})
        kk = sub(d, pp)
        at = lambda g, y: subst(g, lambda z: y if z is p else None)
        if pp.op == "c" or any(z.op == "phi" and z.a[0] == lp.id and z is not p for z in walk(d)) or not self._invariant(d, lp, W):
            return None
        for kind, g, gk in (("min", neg(pp), kk), ("max", pp, neg(kk))):
            gx = at(g, x)
            ok = gx is gk
            if not ok and strict and sub(gx, gk).op == "c" and abs(sub(gx, gk).a[0]) == 1 and not any(z in FL for z in walk(g)):
                # integers: x <= y is x < y + 1
                ok, strict = (sub(gx, gk) is (ONE if kind == "min" else const(-1))), False
            if ok:
                return ("bestat", i0, x, (kind, at(g, i0), gx, strict, cond), base)
        return None

    def _companion(self, lp, init, phi, e, ext, W):
        if e.op != "ite":
            return None
        c, a, b = e.a
        if b is phi and c is ext[4]:
            y = a
        elif a is phi and lnot(c) is ext[4]:
            y = b
        else:
            return None
        if not self._closed(lp, y) or not self._invariant(y, lp, W):
            return None
        return ("at", init, y, ext)

    def _red_value(self, lp, red, n):
        kind, init, d = red[:3]
        if kind == "fold":
            return self._fold_value(lp, d, red[3], n)
        if kind == "foldagg":
            return agg(init.a[0], init.a[1], [self._fold_value(lp, d, p, n) for p in red[3]])
        if kind == "agg":
            return agg(init.a[0], init.a[1], [self._red_value(lp, d[x], n) for x in init.a[1]])
        if kind == "same":
            return init
        if kind == "bestat":
            return add(red[4], mark_nn(self._red_value(lp, ("at",) + red[1:4], n)))
        if kind in ("min", "max"):
            flt = red[5] if len(red) > 5 else TRUE
            body, b = self._lam(lp, agg("ext", ("x", "if"), [d, toint(flt)]))
            return mk(kind + "r", init, n, body, mk("strict") if red[3] else mk("nonstrict"))
        if kind == "at":
            ext = red[3]
            flt = ext[5] if len(ext) > 5 else TRUE
            body, b = self._lam(lp, agg("ext", ("x", "if", "y"), [ext[2], toint(flt), d]))
            return mk("at" + ext[0], init, ext[1], n, body, mk("strict") if ext[3] else mk("nonstrict"))
        body, b = self._lam(lp, d)
        if kind == "sum":
            return add(init, tsum(n, body, b))
        ex = lambda g: mk("bool", "exists", n, g)
        if kind == "all":
            return land(truth(init), lnot(ex(lnot(body))))
        return lor(truth(init), ex(body))

    def _invariant(self, d, lp, W):
        for x in walk(d):
            if x.op == "ld":
                if x.a[1] >= getattr(lp, "v0", 0) and any(self.regkey(w)[0] is self.regkey(x.a[0])[0] for w in W):
                    return False
            if x.op in ("call", "havoc", "post", "undef"):
                return False
        return True

    def _forget(self, loc):
        if loc.op == "iloc":
            self._forget(loc.a[1])
            self._forget(loc.a[2])
            return
        b, path = self.regkey(loc)
        base = self._base_layer(b)
        self.st.ver[(b, path)] = n = self.fresh()
        if self.root(loc)[0].op == "deref":
            if self.st.lay.get(b) is not None and self.st.lay[b][-1][:2] == ("op", path):
                self.st.lay[b] = self.st.lay[b][:-1]
            self._push_layer(b, ("op", path, n), base)
        for k in [k for k in self.st.env if k.op != "var" and self.root(k)[0].op != "var" and self.regkey(k)[0] is b and self.root(k)[1][:len(path)] == path[:len(self.root(k)[1])]]:
            del self.st.env[k]
        if loc.op == "deref" and loc in self.conts:
            # a container held at the location may have been replaced: its elements are others
            bb = mk("begin", loc)
            self.st.ver[(bb, ())] = self.fresh()
            self.st.lay.pop(bb, None)
            for k in [k for k in self.st.env if self.root(k)[0].op == "deref" and self.regkey(k)[0] is bb]:
                del self.st.env[k]
            self._other_elements(bb)

    def _exists_before(self, loc, lp):
        return True

    def _one_base(self, v, b):
        if v is None:
            return False
        if v.op == "ite":
            return self._one_base(v.a[1], b) and self._one_base(v.a[2], b)
        return base_of(v)[0] is b

    def _fixed_cells(self, lp, W, wrote, before):
        """array elements holding a tuple that every iteration writes at one and the same address: as good as variables"""
        out = set()
        regs = {}
        for w in wrote:
            if w.op != "iloc" and self.root(w)[0].op == "deref":
                regs.setdefault(self.regkey(w), set()).add(w)
        for key, ws in regs.items():
            w = next(iter(ws))
            if len(ws) != 1 or w not in W or key[0].op != "begin":
                continue
            if any(k2[0] is key[0] and k2 != key and (k2[1][:len(key[1])] == key[1] or key[1][:len(k2[1])] == k2[1]) for k2 in regs):
                continue
            if any(x is lp.k or x.op in ("phi", "post", "undef", "havoc") and x.a[0] == lp.id or x.op == "ld" and x.a[1] >= lp.v0 for x in walk(w)):
                continue
            sv, self.st = self.st, before.fork()
            v = self.load(w)
            self.st = sv
            if v.op == "agg":
                out.add(w)
        return out

    def _outer(self, W, st):
        out = []
        for w in W:
            r, p = self.root(w)
            if r.op == "iloc":
                continue
            if r.op == "var":
                if r in st.env and r not in out:
                    out.append(r)
            else:
                if w not in out:
                    out.append(w)
        return sorted(out, key=lambda t: t.id)

    def _phis(self, lp, outer, ind=None, reds=None):
        """bind written locations to phi terms in the current state; returns {loc: (phi, isregion)}"""
        phis = {}
        ind = ind or {}
        reds = reds or {}
        for loc in outer:
            r, p = self.root(loc)
            if r.op == "var":
                old = self.st.env.get(loc)
                if loc in ind:
                    init, step = ind[loc]
                    v = add(init, mul(step, lp.k))
                elif loc in reds:
                    v = self._red_value(lp, reds[loc], lp.k)
                elif old is not None and old.op == "agg":
                    v = agg(old.a[0], old.a[1], [mk("phi", lp.id, fld(loc, n)) for n in old.a[1]])
                elif old is not None and old.op == "cobj":
                    if loc in lp.replaced:
                        self.st.env[loc] = self._some_object(old)
                    continue
                elif old is not None and base_of(old)[0] is not None and base_of(old)[0].op in ("mit", "begin") and loc not in lp.unbased:
                    # an iterator of one container: its position varies
                    v = add(base_of(old)[0], mark_nn(mk("phi", lp.id, fld(loc, "#off"))))
                else:
                    v = mk("phi", lp.id, loc)
                    if loc in _nm():
                        name(v, "phi%d[%s]" % (lp.id, _nm()[loc][1:]))
                    if old is not None and (is_ptr_atom(old) or base_of(old)[0] is not None):
                        mark_ptr(v)
                self.st.env[loc] = v
                phis[loc] = (v, False)
            elif loc in lp.fixed:
                old = self.load(loc)
                if loc in reds:
                    v = self._red_value(lp, reds[loc], lp.k)
                elif old.op == "agg":
                    v = agg(old.a[0], old.a[1], [mk("phi", lp.id, fld(loc, n)) for n in old.a[1]])
                self.clobber(loc, v)
                self.st.env[loc] = v
                phis[loc] = (v, False)
            else:
                exact = self.st.env.get(loc)
                self._forget(loc)
                phis[loc] = (mk("phi", lp.id, loc), True)
                if r.op in ("obj", "new", "arg", "global") and loc.op == "fld" or r.op == "global" and loc is r:
                    v = mk("phi", lp.id, loc)
                    if loc in ind:
                        init, step = ind[loc]
                        v = add(init, mul(step, lp.k))
                    elif loc in reds:
                        v = self._red_value(lp, reds[loc], lp.k)
                    if exact is not None and is_ptr_atom(exact):
                        mark_ptr(v)
                    self.st.env[loc] = v
                    phis[loc] = (v, False)
        return phis

    def _iteration(self, lp, cond, body, inc, post, rng, phis, havoc_all=False, final=False):
        """one abstract iteration from the current state"""
        pc0 = self.st.pc
        if havoc_all:
            # a cheap over-approximation for the dry pass: leave values as they are (only the set of written locations is used)
            pass
        nrets = len(self.fr.rets)
        self.loopstack.append(lp)
        ctl = {"cont": [], "brk": [], "pc": pc0}
        self.ctl.append(ctl)
        c = TRUE
        if rng is not None:
            base, n, bind, rbody = rng
            c = name(mk("inrange", lp.id), "k%d<%s" % (lp.id, show(n)))
            lp.trip, lp.range = n, (base, n)
            lp.cond = lt(lp.k, n, True)
            c = lp.cond
            self.st.pc = pc0 + (c,) if c is not TRUE else pc0
            elt = deref(add(base, lp.k))
            bind(elt)
            pcb = self.st.pc
            rbody()
        else:
            if cond is not None:
                c = cond()
                lp.cond = c
                lp.trip = self._trip(lp, c)
                self.st.pc = self.st.pc + (c,) if c is not TRUE else self.st.pc
                if lp.trip is not None and c.op == "not":
                    inr = lt(lp.k, lp.trip, True)
                    if inr not in (TRUE, FALSE):
                        self.st.pc = self.st.pc + (inr,)
            pcb = self.st.pc
            if c is not FALSE:
                body()
        self.ctl.pop()
        n0 = len(pcb)
        lp.bodypc = n0
        lp.ret_vals = [v for pc, v, s in self.fr.rets[nrets:]]
        lp.own_breaks = len(ctl["brk"])
        rb = getattr(self, "retbreak", None)
        if rb is not None and rb["depth"] == len(self.loopstack) - 1 and rb["frame"] is self.fr:
            for j, (pc, v, sn) in enumerate(self.fr.rets[nrets:]):
                sn = sn.fork()
                sn.dead, sn.pc = False, pc
                self._returned(rb, j, v, sn)
                ctl["brk"].append(sn)
            del self.fr.rets[nrets:]
            rb["last"]["breaks"] = lp.own_breaks
        self.merge_snaps(ctl["cont"], pcb)
        if inc is not None and not self.st.dead:
            inc()
        if post is not None and not self.st.dead:
            lp.postcond = post()
        self.loopstack.pop()
        rg = [land(*pc[len(pcb):]) for pc, v, s in self.fr.rets[nrets:]]
        lp.ret_guards = rg
        lp.brk_guards = [land(*b.pc[n0:]) for b in ctl["brk"]]
        lp.has_break = bool(ctl["brk"]) or bool(rg)
        lp.brk_states = ctl["brk"]
        lp.infinite = (c is TRUE and rng is None and post is None and not ctl["brk"])
        if not self.st.dead:
            self.st.pc = pc0

    def _trip(self, lp, c):
        """iterations of a loop whose condition is affine in k: k < n, k != n"""
        for x in ([c] if c.op != "and" else []):
            neg_ = False
            if x.op == "not":
                neg_, x = True, x.a[0]
            if x.op == "lt":
                d = poly(x.a[0])
                ck = d.get((lp.k,), 0)
                rest = unpoly({m: v for m, v in d.items() if m != (lp.k,)})
                if any(lp.k in m for m in d if m != (lp.k,)):
                    return self._trip_scaled(lp, x, neg_)
                if not neg_ and ck > 0:        # ck*k + rest < 0
                    if ck == 1:
                        return neg(rest)
                    return mk("ceildiv", neg(rest), const(ck))
                if neg_ and ck < 0:            # -ck*k <= rest, k <= rest/-ck
                    if ck == -1:
                        return add(rest, ONE)
                if neg_ and ck > 0:            # ck*k + rest >= 0 : never ends going up, unless unsigned
                    return None
                if not neg_ and ck < 0:
                    return None
            if x.op == "eq" and neg_:
                d = poly(x.a[0])
                ck = d.get((lp.k,), 0)
                rest = unpoly({m: v for m, v in d.items() if m != (lp.k,)})
                if any(lp.k in m for m in d if m != (lp.k,)):
                    return self._trip_scaled(lp, x, neg_)
                if ck == 1:
                    return neg(rest)
                if ck == -1:
                    return rest
        return None

    def _trip_scaled(self, lp, x, neg_):
        """strides: k*d against X with a loop-invariant symbolic step d (taken to be positive and to divide the range)"""
        d = poly(x.a[0])
        ms = [m for m in d if lp.k in m]
        if len(ms) != 1 or ms[0].count(lp.k) != 1:
            return None
        m = ms[0]
        c = d[m]
        step = unpoly({tuple(y for y in m if y is not lp.k): Fraction(1)})
        rest = unpoly({q: v for q, v in d.items() if q != m})
        if lp.k in set(walk(rest)) or lp.k in set(walk(step)) or c not in (1, -1):
            return None
        if x.op == "lt" and (neg_ or c != 1 or exact_quotient(scale(rest, -c), step) is None):
            return None
        return idiv(scale(rest, -c), step)

    def s_SwitchStmt(self, s):
        v = self.rv(s["c"][-2] if len(s.get("c", [])) > 1 else s["c"][0])
        bodyn = s["c"][-1]
        pc0 = self.st.pc
        ctl = {"cont": [], "brk": [], "switch": True}
        self.ctl.append(ctl)
        # each case: executed under v == label (fall-through approximated by sequencing)
        items = []
        for c in bodyn.get("c", []) if bodyn else []:
            items.append(c)
        cases = []
        cur = None
        for it in items:
            labels = []
            d = False
            while it is not None and it["k"] in ("CaseStmt", "DefaultStmt"):
                if it["k"] == "CaseStmt":
                    labels.append(self.rv(it["lhs"]))
                    it = it.get("body")
                else:
                    d = True
                    it = (it.get("c") or [None])[-1]
            if labels or d:
                cur = [labels, d, []]
                cases.append(cur)
            if cur is not None and it is not None:
                cur[2].append(it)
        alll = [l for c in cases for l in c[0]]
        base = self.st
        for labels, d, stmts in cases:
            g = lor(*[eq(v, l) for l in labels], *([land(*[lnot(eq(v, l)) for l in alll])] if d else []))
            prev = self.st
            a = base.fork()
            a.pc = pc0 + (g,)
            a.dead = False
            if not prev.dead and prev is not base and len(prev.pc) > len(pc0):
                self.st = prev
                self.merge_snaps([a], pc0)
            else:
                self.st = a
            for x in stmts:
                self.exec(x)
        self.ctl.pop()
        rest = land(*[lnot(eq(v, l)) for l in alll]) if not any(c[1] for c in cases) else FALSE
        sn = list(ctl["brk"])
        if rest is not FALSE:
            b = base.fork()
            b.pc = pc0 + (rest,)
            sn.append(b)
        self.merge_snaps(sn, pc0)

    def s_omp(self, s):
        self.omp.append(s)
        n = len(self.allloops)
        if s.get("body"):
            self.exec(s["body"])
        for lp in self.allloops[n:n + 1]:
            lp.omp = s
        self.omp.pop()

    def s_CXXTryStmt(self, s):
        for c in s.get("c", []):
            if c and c["k"] != "CXXCatchStmt":
                self.exec(c)
        for c in s.get("c", []):
            if c and c["k"] == "CXXCatchStmt":
                g = mk("bool", "caught", self.fresh())
                self.branch(g, lambda: self.exec(c.get("body")), None)

    def s_CXXThrowExpr(self, s):
        self.throw(s)

    def throw(self, e):
        if self.st.dead:
            return
        self.eff("throw", line=e["l"], node=e)
        if not self.dry:
            pass
        self._thrown_pc = self._thrown_pc + [self.st.pc]
        self.st.dead = True

    # ---- expressions --------------------------------------------------------------------------------------------
    def convert(self, v, tf, tt):
        P = self.fr.P if self.frames else self.P
        if tt is None or tf is None:
            return v
        ct = P.cls(tt)
        if ct == "opt" and P.cls(tf) != "opt":
            return self.mkopt(v)
        if ct == "bool" and P.cls(tf) != "bool":
            return truth(v)
        return v

    def mkopt(self, v):
        return agg("opt", ("has", "val"), [TRUE, v])

    def nullopt(self):
        return agg("opt", ("has", "val"), [FALSE, mk("undef", "nullopt")])

    def ident(self, loc):
        """the object a location currently denotes (locals holding containers/objects are handles)"""
        if loc.op == "iloc":
            a, b = self.ident(loc.a[1]), self.ident(loc.a[2])
            return loc if a is loc.a[1] and b is loc.a[2] else mk("iloc", loc.a[0], a, b)
        v = self.st.env.get(loc)
        if v is None and loc.op == "fld":
            v = self._agg_at(loc)
        if v is not None and v.op == "cobj":
            return v.a[0]
        if v is not None and v.op == "iobj":
            return mk("iloc", v.a[0], self.ident_v(v.a[1]), self.ident_v(v.a[2]))
        return loc

    def ident_v(self, v):
        if v.op == "cobj":
            return v.a[0]
        if v.op == "iobj":
            return mk("iloc", v.a[0], self.ident_v(v.a[1]), self.ident_v(v.a[2]))
        return v

    def load_obj(self, loc, t):
        """rvalue of a class-type glvalue: a copy (fresh identity) for containers and objects"""
        P = self.fr.P
        c = P.cls(t)
        if c in ("cont", "obj"):
            return self.copy_obj(self.ident(loc), t)
        if c in ("uarr", "lambda"):
            v = self.st.env.get(loc)
            return v if v is not None else mk("cobj", loc)
        return self.load(loc, t)

    def copy_obj(self, src, t, move=False):
        if src.op == "iloc":
            return mk("iobj", src.a[0], self.copy_obj(src.a[1], t, move), self.copy_obj(src.a[2], t, move))
        if move:
            return mk("cobj", src)
        new = mk("new", "copy", self.fresh())
        self.objtype[new] = t
        _nm().setdefault(new, "copy_of_" + show(src))
        # copy known fields (deep for nested handles is not needed: values are immutable terms)
        for k, v in list(self.st.env.items()):
            if k.op == "fld" and self._under(k, src):
                p = []
                x = k
                while x is not src:
                    p.append(x.a[1])
                    x = x.a[0]
                if any(str(n).startswith("#fill") for n in p):
                    continue
                l = new
                for n in reversed(p):
                    l = mk("fld", l, n)
                if v.op == "cobj" and self.P.cls(t) == "obj":
                    continue
                self.st.env[l] = v
        if (self.fr.P if self.frames else self.P).cls(t) == "cont":
            self.st.env[fld(new, "#size")] = self.size_of(src)
            if src in self.small:
                self.small[new] = self.small[src]
        self.copies[new] = (mk("begin", src), self.st.fork(), self.version(deref(mk("begin", new))))
        P = self.fr.P if self.frames else self.P
        rec = P.rec_of(t)
        if rec is not None and P.cls(t) == "obj":
            for n, ft in P.fields(rec):
                l = fld(new, n)
                if l not in self.st.env:
                    sv = self.load(fld(src, n), ft)
                    if P.cls(ft) in ("cont", "obj") and not P.isref(ft):
                        self.st.env[l] = self.copy_obj(self.ident(fld(src, n)), ft)
                    elif P.cls(ft) in ("cont", "obj"):
                        self.st.env[l] = mk("cobj", self.ident(fld(src, n)))
                    else:
                        self.st.env[l] = sv
        # elements known exactly
        b0, b1 = mk("begin", src), mk("begin", new)
        for k, v in list(self.st.env.items()):
            r, p = self.root(k)
            if r.op == "deref":
                b, off = base_of(r.a[0])
                if b is b0:
                    l = deref(add(b1, off))
                    for n in p:
                        l = fld(l, n)
                    self.st.env[l] = v
        return mk("cobj", new)

    def size_of(self, loc):
        loc = self.ident(loc)
        if loc.op == "iloc":
            return ite(loc.a[0], self.size_of(loc.a[1]), self.size_of(loc.a[2]))
        v = self.st.env.get(fld(loc, "#size"))
        if v is not None:
            return v
        if self.root(loc)[0].op == "deref":
            v = self._layered(fld(loc, "#size"))
            if v is not None:
                return v
        c = self.copies.get(loc)
        if c is not None and c[0].op == "begin" and c[2] == self.version(deref(mk("begin", loc))):
            sv = self.st
            self.st = c[1]
            v = self.size_of(c[0].a[0])
            self.st = sv
            return v
        return name(mk("size", loc, self.version(fld(loc, "#size"))), "size(%s)" % show(loc))

    # lvalues
    def lv(self, e):
        """location denoted by a glvalue (temporaries get a fresh location)"""
        k = e["k"]
        m = getattr(self, "l_" + k, None)
        if m:
            r = m(e)
            if r is not None:
                return r
        if e.get("lv") or e["k"] in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr"):
            v = self.rv(e, want_loc=True)
        else:
            v = self.rv(e)
        if v is None:
            v = mk("void")
        if v.op == "ref":
            return v.a[0]
        if v.op == "cobj":
            return v.a[0]
        if v.op == "iobj":
            return self.ident_v(v)
        loc = mk("var", "tmp", self.fresh())
        self.st.env[loc] = v
        return loc

    def l_DeclRefExpr(self, e):
        d = e["d"]
        for f in (self.fr,):
            b = f.bind.get(d)
            if b is not None:
                return self.ident(b)
        if "q" in e and e.get("dk") in ("Var", "VarTemplateSpecialization"):
            return name(mk("global", e["q"]), e["q"])
        if e.get("v") is not None:
            loc = mk("var", "tmp", self.fresh())
            self.st.env[loc] = self.num(e)
            return loc
        # captured / enclosing (should not happen)
        for f in reversed(self.frames):
            b = f.bind.get(d)
            if b is not None:
                return self.ident(b)
        return name(mk("global", e.get("n")), e.get("n"))

    def l_InitListExpr(self, e):
        cs = e.get("c", [])
        if e.get("lv") and len(cs) == 1:
            return self.lv(cs[0])          # T& r{x} binds to x
        return None

    def l_CXXThisExpr(self, e):
        return None

    def l_MemberExpr(self, e):
        P = self.fr.P
        if "f" in e:
            return None
        base = e["c"][0]
        if e.get("arrow"):
            p = self.rv(base)
            loc = deref(p)
        else:
            loc = self.lv(base)
        loc = self.ident(loc)
        if loc.op == "iloc":
            l = mk("iloc", loc.a[0], self._field(loc.a[1], e), self._field(loc.a[2], e))
            return l
        return self._field(loc, e)

    def _field(self, loc, e):
        if loc.op == "iloc":
            return mk("iloc", loc.a[0], self._field(loc.a[1], e), self._field(loc.a[2], e))
        P = self.fr.P
        l = fld(self.ident(loc), e["m"])
        # reference members denote their referent
        r = P.records.get(e.get("r"))
        if r:
            for f in r.get("fields", []):
                if f["n"] == e["m"] and P.isref(f["t"]):
                    v = self.st.env.get(l)
                    if v is not None:
                        return self.ident(deref(v))
                    return name(mk("refobj", l), show(l))
        return self.ident(l)

    def l_ImplicitCastExpr(self, e):
        if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
            return self.lv(e["c"][0])
        return None

    def _l_cast(self, e):
        if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
            return self.lv(e["c"][0])
        return None

    l_CXXStaticCastExpr = l_CXXConstCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXReinterpretCastExpr = _l_cast

    def l_UnaryOperator(self, e):
        op = e["op"]
        if op == "*":
            return self.ident(self.access(deref(self.rv(e["c"][0])), e["l"]))
        if op in ("++", "--") and not e.get("post"):
            loc = self.lv(e["c"][0])
            self.incdec(loc, op, e)
            return loc
        return None

    def l_BinaryOperator(self, e):
        if e["op"] == "=":
            loc = self.lv(e["c"][0])
            v = self.rv(e["c"][1])
            if self.st.dead:
                return loc
            loc2 = loc
            self.store(loc2, self.tov(v, e["c"][0].get("t")), e["l"], e)
            return loc
        if e["op"] == ",":
            self.rv(e["c"][0], discard=True)
            return self.lv(e["c"][1])
        return None

    def tov(self, v, t):
        P = self.fr.P
        if t is not None and P.cls(t) == "bool":
            return truth(v)
        if t is not None and P.cls(t) in ("int", "float"):
            return toint(v)
        return v

    def l_CompoundAssignOperator(self, e):
        loc = self.lv(e["c"][0])
        old = self.load(loc, e["c"][0].get("t"))
        r = toint(self.rv(e["c"][1]))
        self.store(loc, self.arith(e["op"][:-1], old, r, e), e["l"], e)
        return loc

    def l_ArraySubscriptExpr(self, e):
        a, b = e["c"]
        x, y = self.rv(a), self.rv(b)
        return self.ident(self.access(deref(add(x, toint(y))), e["l"]))

    def l_ConditionalOperator(self, e):
        c = self.cond(e["c"][0])
        r = []
        res = {}

        def fa():
            res["a"] = self.lv(e["c"][1])

        def fb():
            res["b"] = self.lv(e["c"][2])
        self.branch(c, fa, fb)
        if "a" in res and "b" in res:
            if res["a"] is res["b"]:
                return res["a"]
            return mk("iloc", c, res["a"], res["b"])
        return res.get("a", res.get("b"))

    def l_StringLiteral(self, e):
        return mk("str", e.get("s", ""))

    # rvalues
    def rv(self, e, discard=False, want_loc=False):
        if e is None:
            return mk("undef", "none")
        k = e["k"]
        P = self.fr.P
        if "v" in e and k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and not e.get("lv"):
            return self.num(e)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            pass
            v = stdmodel.call(self, e)
            if v.op == "ref" and not want_loc:
                if discard:
                    return mk("void")
                return self.load_obj(v.a[0], e.get("t"))
            return v
        m = getattr(self, "r_" + k, None)
        if m:
            return m(e)
        if e.get("lv") and not want_loc:
            loc = self.lv(e)
            return self.load_obj(loc, e.get("t"))
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"):
            return self.cast(e)
        self.note("expr:" + k)
        for c in e.get("c", []):
            if isinstance(c, dict) and "t" in c:
                self.rv(c)
        return mk("opaque", k, self.fresh())

    def num(self, e):
        v = e["v"]
        t = self.fr.P.t(e.get("t"))
        if t["k"] == "bool":
            return TRUE if v not in ("0", "false") else FALSE
        if t["k"] == "int":
            n = int(v)
            return mk("c", Fraction(n))
        try:
            if v in ("+Inf", "inf", "Inf"):
                return INF
            if v in ("-Inf", "-inf"):
                return neg(INF)
            if v.lower().endswith("nan"):
                return mk("nan")
            return mk("c", Fraction(v))
        except Exception:
            return mk("num", v)

    def r_CXXThisExpr(self, e):
        return addr(self.fr.this) if self.fr.this is not None else mark_ptr(mk("thisptr"))

    def r_CXXNullPtrLiteralExpr(self, e):
        return ZERO

    r_GNUNullExpr = r_CXXNullPtrLiteralExpr

    def r_CXXScalarValueInitExpr(self, e):
        return ZERO

    r_ImplicitValueInitExpr = r_CXXScalarValueInitExpr

    def r_CXXBoolLiteralExpr(self, e):
        return self.num(e)

    def r_StringLiteral(self, e):
        return mk("str", e.get("s", ""))

    def r_CXXThrowExpr(self, e):
        self.throw(e)
        return mk("undef", "throw")

    def r_LambdaExpr(self, e):
        n = self.fresh()
        ident = mk("lamobj", n)
        bind = {}
        this = self.fr.this
        for c in e.get("cap", []):
            if c.get("this"):
                continue
            d = c.get("d")
            if d is None:
                continue
            if c.get("ref"):
                b = self.fr.bind.get(d)
                if b is None and c.get("i") is not None:
                    b = self.lv(c["i"])
                bind[d] = b
            else:
                i = c.get("i")
                v = self.rv(i) if i is not None else None
                if v is not None and v.op == "cobj":
                    bind[d] = v.a[0]
                else:
                    loc = mk("var", d, n)
                    self.st.env[loc] = v if v is not None else mk("undef", "cap")
                    bind[d] = loc
        self.lams[ident] = {"bind": bind, "this": this, "f": e["f"], "r": e.get("r"), "frame": self.fr, "P": self.fr.P}
        return mk("cobj", ident)

    def cast(self, e):
        ck = e["ck"]
        P = self.fr.P
        sub_ = e["c"][0]
        if ck == "LValueToRValue":
            loc = self.lv(sub_)
            if self.hook_read:
                self.hook_read(self, loc, e)
            v = self.load(loc, e.get("t"))
            return truth(v) if P.cls(e.get("t")) == "bool" and not is_bool(v) else v
        if ck == "ToVoid":
            self.rv(sub_, discard=True)
            return mk("void")
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return truth(self.rv(sub_))
        if ck == "IntegralCast" and P.t(sub_.get("t"))["k"] == "bool":
            return toint(self.rv(sub_))
        if ck == "IntegralToFloating":
            return toint(self.rv(sub_))
        if ck == "FloatingToIntegral":
            v = self.rv(sub_)
            if v.op == "c":
                return mk("c", Fraction(int(v.a[0])))
            return trunc(v)
        if ck == "NullToPointer":
            self.rv(sub_)
            return ZERO
        if ck in ("ArrayToPointerDecay",):
            loc = self.lv(sub_)
            if loc.op == "str":
                return loc
            return mk("begin", loc)
        if ck == "FunctionToPointerDecay":
            return mk("fn", sub_.get("f"), sub_.get("q"))
        if ck == "ConstructorConversion" or ck == "UserDefinedConversion":
            return self.rv(sub_)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived") and (sub_.get("lv") or e.get("lv")):
            if P.cls(e.get("t")) in ("obj", "cont", "lambda", "uarr"):
                loc = self.lv(sub_)
                return mk("cobj", self.ident(loc))
        return self.rv(sub_)

    r_ImplicitCastExpr = cast
    r_CXXStaticCastExpr = r_CStyleCastExpr = r_CXXConstCastExpr = r_CXXReinterpretCastExpr = r_CXXFunctionalCastExpr = cast

    def r_MemberExpr(self, e):
        if "f" in e:
            return mk("fn", e.get("f"), e.get("q"))
        if e.get("arrow") or e["c"][0].get("lv"):
            loc = self.lv(e)
            return self.load_obj(loc, e.get("t"))
        v = self.rv(e["c"][0])
        if v.op == "cobj":
            return self.load_obj(self._field(v.a[0], e), e.get("t"))
        if v.op == "ref":
            return self.load_obj(self._field(v.a[0], e), e.get("t"))
        return sel(v, e["m"])

    def r_DeclRefExpr(self, e):
        if e.get("dk") in ("Function", "CXXMethod"):
            return mk("fn", e.get("f"), e.get("q"))
        loc = self.lv(e)
        if e.get("dk") == "EnumConstant":
            return mk("enum", e["n"])
        return self.load_obj(loc, e.get("t"))

    def r_UnaryOperator(self, e):
        op = e["op"]
        s = e["c"][0]
        if op == "!":
            return lnot(self.cond(s))
        if op == "-":
            return neg(toint(self.rv(s)))
        if op == "+":
            return toint(self.rv(s))
        if op == "~":
            return mk("bitnot", self.rv(s))
        if op == "&":
            return addr(self.lv(s))
        if op in ("++", "--"):
            loc = self.lv(s)
            old = self.load(loc, s.get("t"))
            self.incdec(loc, op, e)
            return old if e.get("post") else self.load(loc, s.get("t"))
        if op == "*":
            return self.load_obj(self.lv(e), e.get("t"))
        return mk("unary", op, self.rv(s))

    def incdec(self, loc, op, e):
        old = self.load(loc)
        self.store(loc, add(old, ONE) if op == "++" else sub(old, ONE), e["l"], e)

    def arith(self, op, a, b, e):
        P = self.fr.P
        a, b = toint(a), toint(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return fdiv(a, b) if P.t(e.get("t"))["k"] == "float" or (e.get("c") and P.t(P.strip(e["c"][0].get("t")))["k"] == "float") else idiv(a, b)
        if op == "%":
            return imod(a, b)
        return mk("bin" + op, a, b)

    def r_BinaryOperator(self, e):
        op = e["op"]
        P = self.fr.P
        if op == "=" or op == ",":
            loc = self.lv(e)
            return self.load(loc, e.get("t"))
        if op in ("&&", "||"):
            a = self.cond(e["c"][0])
            res = {}

            def rhs():
                res["b"] = self.cond(e["c"][1])
            if op == "&&":
                self.branch(a, rhs, lambda: None)
                return land(a, res.get("b", FALSE)) if a is not FALSE else FALSE
            self.branch(a, lambda: None, rhs)
            return lor(a, res.get("b", TRUE)) if a is not TRUE else TRUE
        a = self.rv(e["c"][0])
        b = self.rv(e["c"][1])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            isint = P.cls(e["c"][0].get("t")) in ("int", "bool", "ptr", "iter") and P.cls(e["c"][1].get("t")) in ("int", "bool", "ptr", "iter")
            return self.compare(op, a, b, isint)
        return self.arith(op, a, b, e)

    def compare(self, op, a, b, isint):
        if op in ("==", "!="):
            if not (is_bool(a) and is_bool(b)):
                a, b = toint(a), toint(b)
            if a.op == "cobj" or b.op == "cobj":
                r = mk("bool", "objeq", *sorted((a, b), key=lambda t: t.id))
            else:
                r = eq(a, b)
            return r if op == "==" else lnot(r)
        a, b = toint(a), toint(b)
        if op == "<":
            return lt(a, b, isint)
        if op == ">":
            return lt(b, a, isint)
        if op == "<=":
            return le(a, b, isint)
        return le(b, a, isint)

    def r_CompoundAssignOperator(self, e):
        return self.load(self.lv(e), e.get("t"))

    def r_ConditionalOperator(self, e):
        c = self.cond(e["c"][0])
        res = {}

        def fa():
            v = self.rv(e["c"][1])
            if not self.st.dead or "a" not in res:
                res["a"] = v

        def fb():
            res["b"] = self.rv(e["c"][2])
        if c is TRUE:
            fa()
            return res["a"]
        if c is FALSE:
            fb()
            return res["b"]
        self.branch(c, fa, fb)
        if "a" not in res:
            return res["b"]
        if "b" not in res:
            return res["a"]
        if e["c"][1]["k"] == "CXXThrowExpr":
            return res["b"]
        if e["c"][2]["k"] == "CXXThrowExpr":
            return res["a"]
        a, b = res["a"], res["b"]
        if self.fr.P.cls(e.get("t")) == "bool":
            a, b = truth(a), truth(b)
        return self.vite(c, a, b)

    def r_InitListExpr(self, e):
        P = self.fr.P
        cs = e.get("c", [])
        c = P.cls(e.get("t"))
        if c in ("int", "float", "bool", "ptr"):
            return self.rv(cs[0]) if cs else ZERO
        rec = P.rec_of(e.get("t"))
        if len(cs) == 1 and rec is not None and P.rec_of(cs[0].get("t")) is rec:
            return self.rv(cs[0])          # T{T(...)}: the same object
        if rec is not None and rec["q"] == "std::array" and len(cs) == 1 and cs[0]["k"] == "InitListExpr":
            cs = cs[0].get("c", [])
        if c == "obj":
            new = mk("new", "agg", self.fresh())
            self.objtype[new] = P.strip(e.get("t"))
            fs = rec.get("fields", [])
            for f, x in zip(fs, cs):
                self.init_loc(fld(new, f["n"]), x, f["t"], e["l"])
            return mk("cobj", new)
        if c in ("agg",):
            return agg("tup", tuple(str(i) for i in range(len(cs))), [self.rv(x) for x in cs])
        new = mk("new", "init", self.fresh())
        for i, x in enumerate(cs):
            self.st.env[deref(add(mk("begin", new), const(i)))] = self.rv(x)
        self.st.env[fld(new, "#size")] = const(len(cs))
        return mk("cobj", new)

    def r_CXXNewExpr(self, e):
        self.eff("call", q="operator new", args=[], line=e["l"], node=e)
        return mk("addr", mk("new", "heap", self.fresh()))

    def r_CXXDeleteExpr(self, e):
        self.eff("call", q="operator delete", args=[], line=e["l"], node=e)
        return mk("void")

    def r_UnaryExprOrTypeTraitExpr(self, e):
        return mk("sizeof", e["l"])

    def r_TypeTraitExpr(self, e):
        return mk("trait", self.fresh())

    # ---- construction -------------------------------------------------------------------------------------------
    def r_CXXConstructExpr(self, e):
        return self.construct(e, None)

    def r_CXXTemporaryObjectExpr(self, e):
        return self.construct(e, None)

    def construct(self, e, at=None, line=None):
        """value of a constructor call; when `at` is given the object is built at that location"""
        P = self.fr.P
        if e["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.rv(e)
        t = e.get("t")
        c = P.cls(t)
        a = e.get("a", [])
        q = e.get("q", "")
        line = line or e["l"]
        if c in ("iter", "ptr", "int", "float", "bool"):
            if not a:
                return mark_ptr(mk("undef", "iter", self.fresh()))
            v = self.rv(a[0])
            return v
        if c == "sptr":
            if not a:
                return ZERO
            return self.rv(a[0])
        if c == "agg":
            return self.mk_tuple(e, a)
        if c == "opt":
            if not a:
                return self.nullopt()
            if P.cls(a[0].get("t")) == "opt":
                return self.rv(a[0])
            if "nullopt" in P.t(P.strip(a[0].get("t")))["s"]:
                return self.nullopt()
            return self.mkopt(self.rv(a[0]))
        if c in ("cont", "uarr"):
            if (e.get("copy") or e.get("move")) and a:
                loc = self.lv(a[0])
                if e.get("move"):
                    v = self.st.env.get(loc)
                    return mk("cobj", self.ident(loc))
                return self.copy_obj(self.ident(loc), P.strip(t))
            return self.container_ctor(e, a, t, line)
        if c == "lambda":
            if a:
                v = self.rv(a[0])
                return v if v.op == "cobj" else mk("cobj", self.lv(a[0]))
        if c == "obj":
            f = P.fns.get(e.get("f"))
            if (e.get("copy") or e.get("move")) and a and (f is None or f.get("defaulted") or f.get("implicit") or "body" not in f):
                loc = self.ident(self.lv(a[0]))
                if at is not None:
                    src = loc
                    rec = P.rec_of(t)
                    for n, ft in P.fields(rec):
                        self.store(fld(at, n), self.load(fld(src, n), ft), line)
                    return mk("cobj", at)
                v = self.copy_obj(loc, P.strip(t), move=bool(e.get("move")))
                return v
            new = at if at is not None else mk("new", "ctor", self.fresh())
            if at is None:
                self.objtype[new] = P.strip(t)
                rec0 = P.rec_of(t)
                _nm().setdefault(new, "%s#%d" % (rec0["name"] if rec0 else "obj", new.a[1]))
            if f is not None and ("body" in f or f.get("ctor")) and not self.opaque(f):
                if not f.get("defaulted") or f.get("inits"):
                    self.inline(f, new, self.bind_args(f, a), line)
                return mk("cobj", new)
            vals = [self.rv(x) for x in a]
            self.eff("call", q=q, args=vals, obj=new, line=line, node=e)
            return mk("cobj", new)
        # anything else
        vals = [self.rv(x) for x in a]
        if c == "other" and (e.get("copy") or e.get("move")) and len(vals) == 1:
            return vals[0]
        r = P.rec_of(t)
        rq = r["q"] if r else ""
        if rq in ("std::uniform_int_distribution", "std::uniform_real_distribution") and len(vals) == 2:
            return mk("dist", "int" if "int" in rq else "real", toint(vals[0]), toint(vals[1]))
        if rq in ("std::plus", "std::minus", "std::multiplies", "std::divides", "std::less", "std::greater", "std::equal_to", "std::less_equal", "std::greater_equal", "std::not_equal_to"):
            return mk("fobj", rq)
        new = mk("new", rq or "other", self.fresh())
        if rq == "std::variant" and len(a) == 1:
            alt = P.t(P.strip(a[0].get("t")))["s"].replace("const ", "")
            self.alts[new] = alt
            if P.cls(a[0].get("t")) in ("obj", "cont"):
                self.st.env[fld(new, "<%s>" % alt)] = self.copy_obj(self.ident_v(vals[0]), P.strip(a[0].get("t"))) if vals[0].op != "cobj" else vals[0]
            else:
                self.st.env[fld(new, "<%s>" % alt)] = vals[0]
            return mk("cobj", new)
        self.eff("call", q=q or rq, args=vals, obj=new, line=line, node=e)
        if vals and rq.startswith("std::"):
            return mk("cobj", new) if True else new
        return mk("cobj", new)

    def mk_tuple(self, e, a):
        P = self.fr.P
        rec = P.rec_of(e.get("t"))
        ta = (rec or {}).get("targs") or []
        if len(a) == 1 and P.cls(a[0].get("t")) == "agg":
            if e.get("copy") and len(ta) == 2 and rec["q"] == "std::pair" and any(P.cls(x) == "cont" for x in ta):
                src = self.ident(self.lv(a[0]))
                if src.op != "iloc" and self.st.env.get(src) is None:
                    return agg("tup", ("0", "1"), [self.copy_obj(self.ident(fld(src, str(i))), P.strip(x)) if P.cls(x) == "cont" else self.load(fld(src, str(i)), x)
                                                   for i, x in enumerate(ta)])
            v = self.rv(a[0])
            return v
        pair = rec is not None and rec["q"] == "std::pair"
        names = ("first", "second") if pair else tuple(str(i) for i in range(len(a)))
        if not a:
            n = 2 if pair else 0
            return agg("tup", names[:2], [ZERO, ZERO]) if pair else mk("undef", "tuple", self.fresh())
        return agg("tup", tuple(str(i) for i in range(len(a))), [self.rv(x) for x in a])

    def container_ctor(self, e, a, t, line):
        P = self.fr.P
        rec = P.rec_of(t)
        n = self.fresh()
        new = mk("new", "cont", n)
        self.objtype[new] = P.strip(t)
        _nm().setdefault(new, "cont%d" % n)
        q = rec["q"] if rec else ""
        args = [x for x in a if "allocator" not in P.t(P.strip(x.get("t")))["s"] or P.cls(x.get("t")) == "cont"]
        env = self.st.env
        if q == "std::priority_queue" and (len(args) <= 1 or len(args) == 2 and args[1]["k"] == "CXXTemporaryObjectExpr" and not args[1].get("a")) and (not args or P.cls(args[0].get("t")) not in ("cont", "iter", "ptr")):
            ct = rec["targs"][2] if len(rec.get("targs") or ()) > 2 else None
            cr = P.rec_of(ct) if ct is not None else None
            cmp = None
            if cr is not None and (cr.get("lambda") or P.by_rec.get(cr["id"])):
                cmp = mk("cobj", mk("new", "compare", self.fresh()))
                self.lams[cmp.a[0]] = {"bind": {}, "this": None, "frame": self.fr, "P": P, "f": None, "r": cr["id"]}
            elif cr is not None and cr["q"] != "std::less":
                cmp = mk("fobj", cr["q"])
            stdmodel.small_new(self, new, cmp)
            env[fld(new, "#size")] = ZERO
            return mk("cobj", new)
        if not args:
            env[fld(new, "#size")] = ZERO
            if q.endswith("set") and rec.get("targs") and P.cls(rec["targs"][0]) in ("obj", "agg"):
                stdmodel.small_new(self, new)
            if stdmodel.int_keyed(self, new, t):
                env[fld(new, "#empty")] = self.version(fld(stdmodel.slot(new, ZERO), "#in"))
            return mk("cobj", new)
        if e.get("il") or (len(args) >= 1 and P.rec_of(args[0].get("t")) and P.rec_of(args[0]["t"])["q"] == "std::initializer_list"):
            il = self._initlist(args[0])
            if args[0]["k"] == "InitListExpr":
                il = args[0].get("c", [])
            if il is not None:
                vals = [self.rv(x) for x in il]
                env = self.st.env
                for i, v in enumerate(vals):
                    env[deref(add(mk("begin", new), const(i)))] = v
                env[fld(new, "#size")] = const(len(vals))
                return mk("cobj", new)
        if q in ("std::vector", "std::deque") and P.cls(args[0].get("t")) in ("int",):
            sz = self.rv(args[0])
            fill = self.rv(args[1]) if len(args) > 1 else None
            if fill is None:
                ec = P.cls(rec["targs"][0]) if rec.get("targs") else "other"
                fill = ZERO if ec in ("int", "float", "bool", "ptr", "sptr") else None
                if ec == "bool":
                    fill = FALSE
            env = self.st.env
            env[fld(new, "#size")] = sz
            if fill is not None and (fill.op not in ("cobj", "iobj") or fill.op == "cobj" and rec.get("targs") and P.cls(rec["targs"][0]) == "obj"):
                env[fld(new, "#fill")] = fill
            if sz.op == "c" and 1 <= sz.a[0] <= self.SHORT and rec.get("targs") and P.cls(rec["targs"][0]) == "cont" and (fill is None or fill.op == "cobj"):
                # a few containers: each one by itself
                et = P.strip(rec["targs"][0])
                for i in range(int(sz.a[0])):
                    if fill is None:
                        c = mk("cobj", mk("new", "cont", self.fresh()))
                        self.objtype[c.a[0]] = et
                        self.st.env[fld(c.a[0], "#size")] = ZERO
                    else:
                        c = self.copy_obj(fill.a[0], et)
                    self.st.env[deref(add(mk("begin", new), const(i)))] = c
            self.eff("cmut", q="ctor-fill", obj=new, args=[sz, fill if fill is not None else mk("default")], line=line, node=e)
            return mk("cobj", new)
        if len(args) >= 2 and P.cls(args[0].get("t")) in ("iter", "ptr"):
            f, l = self.rv(args[0]), self.rv(args[1])
            env = self.st.env
            env[fld(new, "#size")] = sub(l, f) if q in ("std::vector", "std::deque") else mk("size", new, 0)
            env[fld(new, "#range")] = agg("rng", ("first", "last"), [f, l])
            b, off = base_of(f)
            if q in ("std::vector", "std::deque") and b is not None:
                self.copies[new] = (f, self.st.fork(), self.version(deref(mk("begin", new))))
            self.eff("cmut", q="ctor-range", obj=new, args=[f, l], line=line, node=e)
            return mk("cobj", new)
        vals = [self.rv(x) for x in args]
        if P.cls(t) == "uarr" and vals:
            v = vals[0]
            if v.op == "cobj":
                return v
        self.eff("cmut", q="ctor:" + q, obj=new, args=vals, line=line, node=e)
        return mk("cobj", new)

    def bind_args(self, f, args):
        P = f["P"]
        out = []
        for p, x in zip(f["params"], args):
            if P.isref(p["t"]):
                if x.get("lv") or self.fr.P.cls(x.get("t")) in ("obj", "cont", "lambda", "uarr") or x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXStaticCastExpr"):
                    out.append(("loc", self.lv(x)))
                else:
                    out.append(("val", self.rv(x)))
            else:
                out.append(("val", self.rv(x)))
        return out


def loc_base(l):
    while l.op == "fld":
        l = l.a[0]
    return base_of(l.a[0])[0]


def _nm():
    from . import term
    return term._names
