"""Random interpretation of value numbers.

Two value numbers that differ syntactically may still denote the same quantity, so a law is only refuted when an
interpretation of the uninterpreted leaves (memory read at entry, parameters, sizes) makes its value number false.  The
program is not executed: what is interpreted are the terms computed by the value numbering, with loops already closed.
A term that contains anything the value numbering did not resolve has no interpretation (Unknown).
"""
import hashlib, math, random, time
from fractions import Fraction
from .term import *


class Unknown(Exception):
    pass


class Skip(Exception):
    """this interpretation is ill-formed (negative length, division by zero, rounding-sensitive comparison)"""


STATS = {}
MORE, MORE_S = 6000, 5.0               # further interpretations while they are cheap
BIG = Fraction(10 ** 9)
F0, F1 = Fraction(0), Fraction(1)


class Run:
    """the states a system of recurrences goes through; array contents are computed where they are read"""

    def __init__(self, it, t, env):
        self.it, self.env, self.body = it, env, t.a[2]
        self.lv = level(self.body, env)
        self.names = t.a[1].a[1]
        self.has = set(self.body.a[1])
        self.mem = {}
        self.st = [{x: it.ev(v, env) for x, v in zip(self.names, t.a[1].a[2:])}]
        n = None if t.a[0] is INF else it.count(t.a[0], env)
        self.left = None
        j = 0
        while True:
            if n is not None and j == n or n is None and "cond" in self.has and not self.truth("cond", j):
                break
            if "brk" in self.has and self.truth("brk", j):
                self.left = j
                break
            again = not ("post" in self.has and n is None) or self.truth("post", j)
            self.st.append({x: self.at(x, j) for x in self.names})
            j += 1
            if not again:
                break
            if j > 60:
                raise Skip()
        self.n = j

    def at(self, f, j, o=None):
        s = dict(self.st[j])
        s["k"], s["#run"], s["#t"] = Fraction(j), self, j
        if o is not None:
            s["O"] = o
        e2 = dict(self.env)
        e2[self.lv] = s
        return self.it.ev(sel(self.body, f), e2)

    def truth(self, f, j):
        v = self.at(f, j)
        return v if isinstance(v, bool) else v != 0

    def region(self, j, r, o):
        k = (j, r, o)
        v = self.mem.get(k)
        if v is None:
            if j == 0:
                e2 = dict(self.env)
                e2[self.lv] = {"O": o}
                v = self.it.ev(sel(self.body, "i" + r), e2)
            else:
                v = self.at("n" + r, j - 1, o)
            self.mem[k] = v
        return v

    def out(self, w, o):
        if w == "r0":
            return self.at("xr0", self.left, o) if self.left is not None else self.region(self.n, w, o)
        return self.at("x" + w if self.left is not None else "e" + w, self.n)


class Interp:
    def __init__(self, seed, mode, over=None, bounds=None, regions=None):
        self.seed = seed
        self.mode = mode
        self.late = isinstance(seed, tuple) and len(seed) == 2 and seed[1] >= 900000 and seed[1] % 3 != 0
        self.base = {}
        self.over = over or {}
        self.memo = {}
        self.steps = 0
        self.used = {}
        self.cells = {}
        self.busy = {}
        self.bbusy = set()
        self.bounds, self.regions = bounds or {}, regions or {}
        self.maps = ()
        self.runs = {}
        self.ints, self.reals, self.cap = (), (), 12

    def around(self, special, s):
        """choose some values in the neighbourhood of the constants the law or the code compares with"""
        if special and s % 3 == 1:
            self.ints, self.reals = special
            self.cap = max((12,) + tuple(c + 6 for c in self.ints))

    def in_map(self, M, o, env):
        """whether the traversed map M has key o; its keys are among 0..5"""
        k = ("in", self.loc(M, env), o)
        v = self.cells.get(k)
        if v is None:
            v = self.cells[k] = Fraction(1 if 0 <= o < 6 and o.denominator == 1 and self.rnd(k) % (2 + self.mode % 2) != 0 else 0)
        return v

    def keys_of(self, M, env):
        return [o for o in range(6) if self.in_map(M, Fraction(o), env)]

    def rnd(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big")

    def leaf(self, key, t):
        if key in self.cells:
            return self.cells[key]
        v = self.cells[key] = self._leaf(key, t)
        return v

    def _leaf(self, key, t):
        r = self.rnd("leaf", key)
        m = self.mode
        if t is not None and t in _nn_():
            hi = (3, 4, 7, 5)[m % 4]
            lo, b = self.bounds.get(t, (0, None))
            if b is None and t.op == "ld" and t.a[0].op == "deref":
                b = self.regions.get(base_of(t.a[0].a[0])[0])
            v = Fraction(lo + r % hi)
            if b is not None and t not in self.bbusy:
                # a value the precondition bounds: choose it below the bound
                self.bbusy.add(t)
                n = self.num(b, {})
                self.bbusy.discard(t)
                if n > lo and n.denominator == 1:
                    v = Fraction(lo + r % int(n - lo))
            elif self.ints and (r >> 24) % 3 == 0:
                v = Fraction(max(lo, self.ints[(r >> 8) % len(self.ints)] + (r >> 32) % 3 - 1))
        else:
            pools = ((0, 1, 2, 3), (-2, -1, 0, 1, 2), (-9, -4, -3, -1, 0, 1, 2, 5, 8), (-1, 0, 1))
            p = pools[m % 4]
            v = Fraction(p[r % len(p)])
            if t is not None and t in FL and m >= 4:
                v += Fraction((r >> 16) % 4, 4)
            if self.reals and (r >> 24) % 2:
                k = self.reals[(r >> 8) % len(self.reals)]
                if abs(k) >= 5:
                    v = (k, -k, 2 * k, k + 1, k - 1)[(r >> 32) % 5]
                elif t is not None and t in FL:
                    v += k * (Fraction(1, 2), Fraction(-1, 2), 1, -1, 2)[(r >> 32) % 5]
        if t is not None:
            self.used[t] = v
        return v

    def alloc(self, key):
        b = self.base.get(key)
        if b is None:
            b = self.base[key] = Fraction(100000 * (len(self.base) + 1))
        return b

    # locations -> hashable keys
    def loc(self, l, env):
        if l.op == "fld":
            return ("f", self.loc(l.a[0], env), l.a[1])
        if l.op == "deref":
            return ("m", self.ev(l.a[0], env))
        if l.op == "iloc":
            return self.loc(l.a[1] if self.truth(l.a[0], env) else l.a[2], env)
        if l.op in ("obj", "arg", "new", "var", "global"):
            return (l.op, l.id)
        if l.op == "refobj":
            return ("ro", self.loc(l.a[0], env) if isinstance(l.a[0], T) else l.a[0])
        raise Unknown("location " + l.op)

    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        return v != 0

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return F1 if v else F0
        if not isinstance(v, Fraction):
            raise Unknown("non-numeric " + t.op)
        return v

    def count(self, t, env):
        n = self.num(t, env)
        if n < 0:
            raise Skip()
        if n > self.cap or n.denominator != 1:
            raise Skip()
        return int(n)

    def ev(self, t, env):
        fl = free_levels(t)
        if binder_body(t) is not None:
            env = {k: v for k, v in env.items() if not isinstance(k, int) or k in fl}
        closed = not env or not fl and "cmp0" not in env
        if closed:
            if t in self.memo:
                return self.memo[t]
            if t in self.over and not (t.op in ("ld", "size") and (t.a[1] != 0 or local_mem(t.a[0]) or t.a[0] in self.maps)):
                if t in self.busy:
                    self.busy[t] = True         # the override depends on the leaf itself
                    v = self._ev(t, env)
                    self.memo[t] = v
                    return v
                self.busy[t] = False
                keep = dict(self.memo)
                v = self.ev(self.over[t], env)
                odd = isinstance(v, Fraction) and t in _nn_() and (v < 0 or v.denominator != 1 and t not in FL)
                if self.busy.pop(t) or odd:     # ... or is no value of its type
                    self.memo = keep
                    self.over = {k: x for k, x in self.over.items() if k is not t}
                    v = self._ev(t, env)
                elif t.op == "ld" and isinstance(v, Fraction):
                    # every other name of the cell has to see the same value
                    v = self.cells.setdefault(("mem", self.loc(t.a[0], env)), v)
                self.memo[t] = v
                return v
        self.steps += 1
        if self.steps > 200000:
            raise Skip()
        v = self._ev(t, env)
        if closed:
            self.memo[t] = v
        return v

    def _ev(self, t, env):
        op = t.op
        if op == "c":
            return t.a[0]
        if op == "poly":
            s = F0
            for m, c in t.a[0]:
                p = c
                for x in m:
                    if p == 0:
                        # still must be understood, but a zero factor annihilates
                        break
                    p = p * self.num(x, env)
                s += p
            return s
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "inf":
            return BIG
        if op == "and":
            return self._conn(t, env, False)
        if op == "or":
            return self._conn(t, env, True)
        if op == "not":
            return not self.truth(t.a[0], env)
        if op == "ite":
            return self.ev(t.a[1] if self.truth(t.a[0], env) else t.a[2], env)
        if op in ("lt", "eq"):
            d = self.num(t.a[0], env)
            if d != 0 and abs(d) < Fraction(1, 10 ** 6):
                raise Skip()
            return d < 0 if op == "lt" else d == 0
        if op == "ld":
            if t.a[1] != 0:
                raise Unknown("memory after an unresolved write: " + show(t, 5))
            if local_mem(t.a[0]):
                raise Unknown("local memory: " + show(t, 5))
            if self.maps and t.a[0].op == "fld" and t.a[0].a[1] == "#in" and t.a[0].a[0].op == "deref":
                b, o = base_of(t.a[0].a[0].a[0])
                if b is not None and b.op == "begin" and b.a[0] in self.maps:
                    return self.in_map(b.a[0], self.num(o, env), env)
            k = self.loc(t.a[0], env)
            return self.pval(k, t)
        if op == "arg":
            if t.a[3] == "p":
                # iterators: either unrelated arrays or positions of one array
                r = self.rnd("ptr", t.id)
                return Fraction((r % 6) + (0 if self.mode % 3 == 0 else 100 * ((r >> 8) % 3 if self.mode % 3 == 1 else t.id)))
            return self.leaf(("arg", t.id), t)
        if op == "sk":
            return self.leaf(("sk", t.id), t)
        if op == "bv":
            if t.a[0] not in env:
                raise Unknown("unbound")
            return env[t.a[0]]
        if op == "begin":
            return self.alloc(("b", self.loc(t.a[0], env)))
        if op == "addr":
            return self.alloc(("a", self.loc(t.a[0], env)))
        if op == "thisptr":
            return self.alloc("this")
        if op == "size":
            if t.a[1] != 0:
                raise Unknown("size after an unresolved change")
            if local_mem(t.a[0]):
                raise Unknown("local size: " + show(t, 5))
            if t.a[0] in self.maps:
                return Fraction(len(self.keys_of(t.a[0], env)))
            k = self.loc(t.a[0], env)
            r = self.rnd("size", k)
            v = Fraction(1 + r % 5 if self.late else r % (5 if self.mode % 2 else 4))
            self.used[t] = v
            return v
        if op == "inv":
            d = self.num(t.a[0], env)
            if d == 0:
                raise Skip()
            return 1 / d
        if op == "mul":
            return self.num(t.a[0], env) * self.num(t.a[1], env)
        if op == "abs":
            return abs(self.num(t.a[0], env))
        if op == "sqrt":
            x = self.num(t.a[0], env)
            if x < 0:
                raise Skip()
            a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if a * a == x.numerator and b * b == x.denominator:
                return Fraction(a, b)
            return Fraction(math.sqrt(x))
        if op == "pow":
            x, y = self.num(t.a[0], env), self.num(t.a[1], env)
            if y.denominator == 1 and abs(y) < 10 and not (x == 0 and y < 0):
                return x ** int(y)
            raise Skip()
        if op in ("idiv", "imod", "ceildiv"):
            x, y = self.num(t.a[0], env), self.num(t.a[1], env)
            if y == 0:
                raise Skip()
            q = x / y
            if op == "ceildiv":
                return Fraction(math.ceil(q))
            q = Fraction(math.trunc(q))
            return q if op == "idiv" else x - y * q
        if op == "trunc":
            return Fraction(math.trunc(self.num(t.a[0], env)))
        if op == "limit":
            w = str(t.a[0])
            return {"epsilon": Fraction(1, 100), "max": Fraction(10 ** 8), "lowest": Fraction(-10 ** 8), "min": Fraction(1, 10 ** 4)}.get(w) or self._u("limit " + w)
        if op == "sum":
            n = self.count(t.a[0], env)
            lv = level(t.a[1], env)
            s = F0
            for i in range(n):
                s += self.num(t.a[1], self.bind(env, lv, i))
            return s
        if op in ("minr", "maxr", "atmin", "atmax"):
            at = op.startswith("at")
            if at:
                y, x, n, body, st = t.a
            else:
                x, n, body, st = t.a
                y = None
            bx = self.num(x, env)
            by = self.ev(y, env) if at else None
            ismin = op.endswith("minr") or op == "atmin"
            strict = st.op == "strict"
            lv = level(body, env)
            for i in range(self.count(n, env)):
                e2 = self.bind(env, lv, i)
                if not self.truth(sel(body, "if"), e2):
                    continue
                c = self.num(sel(body, "x"), e2)
                d = (c - bx) if ismin else (bx - c)
                if d != 0 and abs(d) < Fraction(1, 10 ** 6):
                    raise Skip()
                if d < 0 or (d == 0 and not strict):
                    bx = c
                    if at:
                        by = self.ev(sel(body, "y"), e2)
            return by if at else bx
        if op == "firstk":
            E = t.a[0]
            unb = E.a[1] is INF
            n = 40 if unb else self.count(E.a[1], env)
            lv = level(E.a[2], env)
            for i in range(n):
                if self.truth(E.a[2], self.bind(env, lv, i)):
                    return Fraction(i)
            if unb:
                raise Skip()
            return Fraction(n)
        if op == "fold":
            n = self.count(t.a[0], env)
            names = t.a[1].a[1]
            st = {x: self.ev(v, env) for x, v in zip(names, t.a[1].a[2:])}
            body = t.a[2]
            lv = level(body, env)
            for i in range(n):
                e2 = dict(env)
                st["k"] = Fraction(i)
                e2[lv] = st
                st = {x: self.ev(sel(body, x), e2) for x in names}
            return st[t.a[3]]
        if op == "rd":
            r = env.get(t.a[0].a[0])
            if not isinstance(r, dict) or "#run" not in r:
                raise Unknown("unbound")
            return r["#run"].region(r["#t"], t.a[1], self.num(t.a[2], env))
        if op == "gfix":
            r = self.run(t, env)
            return r.out(t.a[3], self.num(t.a[4], env) if len(t.a) > 4 else None)
        if op == "permidx":
            n, i = self.count(t.a[1], env), self.num(t.a[2], env)
            if not 0 <= i < n:
                return i
            if isinstance(t.a[0], T):
                body = t.a[0].a[0]
                lv = level(body, env)
                keys = []
                for j in range(n):
                    e2 = dict(env)
                    e2[lv] = Fraction(j)
                    keys.append((self.num(body, e2), j))
                return Fraction(sorted(keys)[int(i)][1])
            order = sorted(range(n), key=lambda j: self.rnd("perm", t.a[0], j))
            return Fraction(order[int(i)])
        if op == "uf":
            return Fraction(self.rnd("uf", tuple(self.num(x, env) for x in t.a)) % 1009 - 504)
        if op == "ufp":
            r = self.rnd("ufp", tuple(self.num(x, env) for x in t.a))
            return Fraction(r % 6 + (100 * ((r >> 8) % 3) if self.mode % 3 == 1 else 0))
        if op == "draw":
            kind, lo, hi = t.a[0].a
            lo, hi = self.num(lo, env), self.num(hi, env)
            if hi < lo:
                raise Skip()
            r = self.rnd("draw", t.a[1], tuple(self.num(x, env) for x in t.a[2:]))
            return lo + r % (int(hi - lo) + 1) if kind == "int" else lo + (hi - lo) * Fraction(r % 64, 64)
        if op == "bool":
            return self._bool(t, env)
        if op in ("argmin", "argmax"):
            f, n, v, key = t.a
            if v != 0:
                raise Unknown("extremum of modified memory")
            p, n = self.num(f, env), self.count(n, env)
            best = 0
            for i in range(1, n):
                a, b = ("m", p + i), ("m", p + best)
                if op == "argmax":
                    a, b = b, a
                if key.op == "less":
                    d = self.pval(a, None) - self.pval(b, None)
                    r = d < 0
                else:
                    e2 = dict(env)
                    e2["cmp0"], e2["cmp1"] = a, b
                    r = self.truth(key, e2)
                if r:
                    best = i
            return Fraction(best)
        if op in ("findoff", "countif"):
            f, n, v, pr = t.a
            if v != 0:
                raise Unknown("search in modified memory")
            p, n = self.num(f, env), self.count(n, env)
            cnt = 0
            isp = is_bool(pr)
            for i in range(n):
                e2 = dict(env)
                e2["cmp0"] = ("m", p + i)
                hit = self.truth(pr, e2) if isp else self.pval(("m", p + i), None) == self.num(pr, env)
                if hit:
                    if op == "findoff":
                        return Fraction(i)
                    cnt += 1
            return Fraction(n if op == "findoff" else cnt)
        if op == "cmp":
            return self.pval(env["cmp%d" % t.a[0]], None)
        if op == "sel":
            if t.a[0].op == "cmp":
                return self.pval(("f", env["cmp%d" % t.a[0].a[0]], t.a[1]), None)
            if t.a[0].op == "arg":
                return self.alloc(("sel", t.id)) if is_ptr_atom(t) else self.leaf(("sel", t.id), t)
            v = self.ev(t.a[0], env)
            if isinstance(v, dict) and t.a[1] in v:
                return v[t.a[1]]
            raise Unknown("sel")
        if op == "agg":
            return {n: self.ev(v, env) for n, v in zip(t.a[1], t.a[2:])}
        if op == "mkey":
            if t.a[2] != 0:
                raise Unknown("modified map")
            j = self.num(t.a[1], env)
            ks = self.keys_of(t.a[0], env)
            ks.sort(key=lambda o: self.rnd("order", self.loc(t.a[0], env), o))
            return Fraction(ks[int(j)]) if 0 <= j < len(ks) else 1000 + j
        if op == "midx":
            if t.a[2] != 0:
                raise Unknown("modified map")
            o = self.num(t.a[1], env)
            ks = self.keys_of(t.a[0], env)
            ks.sort(key=lambda o: self.rnd("order", self.loc(t.a[0], env), o))
            return Fraction(ks.index(o)) if o in ks else 1000 + o
        if op == "find":
            if t.a[2] != 0:
                raise Unknown("modified map")
            return self.alloc(("find", self.loc(t.a[0], env), self.num(t.a[1], env)))
        raise Unknown(show(t, 4))

    def run(self, t, env):
        fl = free_levels(t.a[2]) | free_levels(t.a[0]) | free_levels(t.a[1])
        ks = sorted(k for k in env if k in fl)
        key = None
        if all(isinstance(env[k], Fraction) for k in ks) and "cmp0" not in env:
            key = (t.a[0], t.a[1], t.a[2]) + tuple((k, env[k]) for k in ks)
            r = self.runs.get(key)
            if r is not None:
                return r
        r = Run(self, t, env)
        if key is not None:
            self.runs[key] = r
        return r

    def _u(self, s):
        raise Unknown(s)

    def pval(self, k, t):
        return self.leaf(("mem", k), t)

    def bind(self, env, lv, i):
        e2 = dict(env)
        e2[lv] = Fraction(i)
        return e2

    def _conn(self, t, env, stop):
        unk = None
        for x in t.a:
            try:
                if self.truth(x, env) == stop:
                    return stop
            except Unknown as u:
                unk = u
        if unk is not None:
            raise unk
        return not stop

    def _bool(self, t, env):
        w = t.a[0]
        if w == "exists" and len(t.a) == 3:
            unb = t.a[1] is INF
            n = 40 if unb else self.count(t.a[1], env)
            lv = level(t.a[2], env)
            if unb and not any(self.truth(t.a[2], self.bind(env, lv, i)) for i in range(n)):
                raise Skip()
            return unb or any(self.truth(t.a[2], self.bind(env, lv, i)) for i in range(n))
        if w == "exists":
            _, f, n, v, pr = t.a
            if v != 0:
                raise Unknown("exists in modified memory")
            p, n = self.num(f, env), self.count(n, env)
            for i in range(n):
                e2 = dict(env)
                e2["cmp0"] = ("m", p + i)
                if self.truth(pr, e2):
                    return True
            return False
        if w == "bvt":
            return True
        if w == "in":
            if t.a[3] != 0:
                raise Unknown("modified map")
            r = bool(self.rnd("in", self.loc(t.a[1], env), self.num(t.a[2], env)) & 1)
            return r
        raise Unknown("condition " + str(w))


def _nn_():
    from . import term
    return term._nn


def local_mem(l):
    """storage the analysed code created itself: its contents are not a free choice"""
    while True:
        if l.op == "fld":
            l = l.a[0]
        elif l.op == "deref":
            b = base_of(l.a[0])[0]
            if b is None:
                return False
            l = b
        elif l.op in ("begin", "addr"):
            l = l.a[0]
        else:
            return l.op in ("new", "var")


def level(body, env):
    """the variable a binder with this body binds: free in the body and not bound by an enclosing binder"""
    f = free_levels(body)
    return min(f) if f else 99


def refute(r, guided=(), tries=240, seed=1, pre=TRUE, over0=None, bounds=None, regions=None):
    """an interpretation that makes r false, or None; how many interpretations satisfied the preconditions; why others failed"""
    unk = None
    ok = 0
    plans = []
    for j in range(max(48, tries // 5)):
        plans += [({}, 5 * j + i) for i in range(5)]
        if over0:
            plans.append((over0, 500000 + 2 * j))
            plans.append((over0, 500000 + 2 * j + 1))
        if j < 48:
            plans += [(g, 1000 * (q + 1) + j) for q, g in enumerate(guided)]
    extra = 0
    n = 0
    t0 = time.process_time()
    st = STATS
    st.clear()
    st.update(tried=0, pre=0, skip=0, ok=0)
    maps = {x.a[0] for y in (r, pre) for x in walk(y) if x.op in ("mkey", "midx")}
    cs = {x.a[0] for y in (r, pre) for x in walk(y) if x.op == "c" and isinstance(x.a[0], Fraction)}
    cs |= {c for y in (r, pre) for x in walk(y) if x.op == "poly" for c in poly(x).values()}
    # sizes of loops stay small
    top = 64 if any(x.op == "bv" for y in (r, pre) for x in walk(y)) else 10 ** 6
    ints = tuple(sorted(int(abs(c)) for c in cs if c.denominator == 1 and 5 <= abs(c) <= top))
    reals = tuple(sorted(c for c in cs if 5 <= abs(c) < 10 ** 30 or 0 < abs(c) < 1 and 4 % c.denominator))
    special = (ints, reals) if ints or reals else None
    st["special"] = len(ints) + len(reals)
    while n < len(plans) or (ok < tries and extra < 12 * tries and pre is not TRUE) or (unk is None and extra < MORE and time.process_time() - t0 < MORE_S):
        if n < len(plans):
            over, s = plans[n]
        else:
            # more interpretations until enough of them satisfy the preconditions
            over, s = (over0 or {}), 900000 + extra
            extra += 1
        n += 1
        st["tried"] += 1
        it = Interp((seed, s), s % 8, over, bounds, regions)
        it.maps = maps
        it.around(special, s)
        try:
            if pre is not TRUE and not it.truth(pre, {}):
                st["pre"] += 1
                continue
            v = it.truth(r, {})
        except Skip:
            st["skip"] += 1
            continue
        except Unknown as u:
            unk = unk or str(u)
            if n > len(plans):
                break
            continue
        ok += 1
        st["ok"] += 1
        st["s"] = round(time.process_time() - t0, 2)
        if v is False:
            return it, ok, unk
    return None, ok, unk
