"""Transfer functions for calls: expansion of the library's own functions and models of the standard components it uses."""
import re
from .term import *

CALLK = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")


def VOID():
    return mk("void")


def ref(loc):
    return mk("ref", loc)


def argval(ev, x):
    """operand value of an argument handed to an opaque callee"""
    P = ev.fr.P
    if P.cls(x.get("t")) in ("obj", "cont", "uarr", "lambda", "other"):
        if x.get("lv") or x["k"] in CALLK or x["k"] in ("MaterializeTemporaryExpr",):
            return mk("cobj", ev.ident(ev.lv(x)))
    return ev.rv(x)


def call(ev, e):
    P = ev.fr.P
    k = e["k"]
    a = e.get("a", [])
    q = e.get("q") or ""
    f = P.fns.get(e.get("f"))
    line = e["l"]
    # object operand
    if k == "CXXMemberCallExpr":
        o = e.get("o")
        if e.get("arrow"):
            obj = ev.ident(deref(ev.rv(o)))
        else:
            obj = ev.ident(ev.lv(o))
        ot = o.get("t")
        if e.get("arrow"):
            ot = P.t(P.strip(ot)).get("p", ot)
        return member(ev, e, q, f, obj, ot, a, line)
    if k == "CXXOperatorCallExpr":
        return operator(ev, e, q, f, a, line)
    # plain call
    if f is not None and expandable(ev, f):
        return do_inline(ev, f, None, a, line, e)
    if not q:
        ce = e.get("ce")
        fv = ev.rv(ce) if ce is not None else None
        if fv is not None and fv.op == "fn" and fv.a[0] in P.fns and expandable(ev, P.fns[fv.a[0]]):
            return do_inline(ev, P.fns[fv.a[0]], None, a, line, e)
        if fv is not None:
            return call_value(ev, fv, [operand(ev, x) for x in a], line, e)
    m = FREE.get(q)
    if m is not None:
        r = m(ev, e, a, line)
        if r is not None:
            return r
    return opaque(ev, e, q, f, None, a, line)


def expandable(ev, f):
    if "body" not in f or f["body"] is None:
        return False
    if f.get("virtual") or f.get("pure"):
        return False
    if ev.opaque(f):
        return False
    if any(fr.fn["id"] == f["id"] for fr in ev.frames):
        return False
    if len(ev.frames) >= ev.maxdepth:
        return False
    return True


def dispatch(ev, f, this):
    """the final overrider when the object was created in the code under analysis, None when its dynamic type is open"""
    if f is None or not (f.get("virtual") or f.get("pure")):
        return None
    t = ev.objtype.get(this)
    if t is None or this is None or this.op not in ("new", "var"):
        return None
    P = ev.fr.P
    r = P.rec_of(t)
    if r is None:
        return None
    if r["id"] != f.get("rec"):
        c = [g for g in P.by_rec.get(r["id"], []) if f["id"] in g.get("overrides", ())]
        if len(c) == 1:
            f = c[0]
        elif c or r.get("bases", []) and len(r["bases"]) > 1:
            return None
    if f.get("body") is None or f.get("pure") or ev.opaque(f) or any(fr.fn["id"] == f["id"] for fr in ev.frames) or len(ev.frames) >= ev.maxdepth:
        return None
    return f


def do_inline(ev, f, this, a, line, e=None):
    binds = ev.bind_args(f, a)
    if ev.st.dead:
        return mk("undef", "dead")
    r = ev.inline(f, this, binds, line)
    return r if r is not None else VOID()


def operand(ev, x):
    """('loc', l) for glvalues and class objects, ('val', v) otherwise"""
    P = ev.fr.P
    if x.get("lv"):
        return ("loc", ev.lv(x))
    v = ev.rv(x)
    if v.op == "cobj":
        return ("loc", v.a[0])
    return ("val", v)


def opval(ev, o, t=None):
    kind, x = o
    return ev.load(x, t) if kind == "loc" else x


def lambda_fn(ev, info):
    P = info["P"]
    f = P.fns.get(info["f"])
    if f is not None and "body" in f and f["body"] is not None:
        return [f] + [g for g in P.by_rec.get(info["r"], []) if g is not f and "body" in g and g["name"] == "operator()"]
    return [g for g in P.by_rec.get(info["r"], []) if "body" in g and g["name"] == "operator()"]


def call_value(ev, fv, ops, line, e=None, rt=None):
    """call of a function value with operands"""
    if fv.op == "ref":
        fv = ev.load(fv.a[0])
    if fv.op == "cobj":
        info = ev.lams.get(fv.a[0])
        if info is not None:
            cands = [g for g in lambda_fn(ev, info) if len(g["params"]) == len(ops)]
            want = e.get("f") if e else None
            c2 = [g for g in cands if g["id"] == want]
            if c2:
                cands = c2
            if cands and not any(fr.fn["id"] == cands[0]["id"] for fr in ev.frames):
                r = ev.inline(cands[0], fv.a[0], ops, line)
                if r is not None and r.op == "ref":
                    r = ev.load(r.a[0])
                return r if r is not None else VOID()
        t = ev.objtype.get(fv.a[0])
        P = ev.fr.P
        rec = P.rec_of(t) if t is not None else None
        if rec is not None:
            cands = [g for g in P.by_rec.get(rec["id"], []) if g["name"] == "operator()" and "body" in g and len(g["params"]) == len(ops)]
            if len(cands) == 1 and expandable(ev, cands[0]):
                r = ev.inline(cands[0], fv.a[0], ops, line)
                if r is not None and r.op == "ref":
                    r = ev.load(r.a[0])
                return r if r is not None else VOID()
    if fv.op == "fobj":
        v = [toint(opval(ev, o)) for o in ops]
        n = fv.a[0]
        if n == "std::plus":
            return add(*v)
        if n == "std::minus":
            return sub(*v)
        if n == "std::multiplies":
            return mul(*v)
        if n == "std::divides":
            return fdiv(*v)
        if n == "std::less":
            return lt(*v)
        if n == "std::less_equal":
            return lnot(lt(v[1], v[0]))
        if n == "std::greater_equal":
            return lnot(lt(v[0], v[1]))
        if n == "std::not_equal_to":
            return lnot(eq(*v))
        if n == "std::greater":
            return lt(v[1], v[0])
        if n == "std::equal_to":
            return eq(*v)
    if fv.op == "fn" and fv.a[0] in ev.fr.P.fns:
        f = ev.fr.P.fns[fv.a[0]]
        if expandable(ev, f):
            r = ev.inline(f, None, ops, line)
            if r is not None and r.op == "ref":
                r = ev.load(r.a[0])
            return r if r is not None else VOID()
    vals = [o[1] if o[0] == "val" else ev.load(o[1]) for o in ops]
    if fv.op == "bindobj":
        # placeholders are numbered, everything else was bound by value
        args = [ops[x.a[0] - 1] if x.op == "hole" else ("val", x) for x in fv.a[1:]]
        return call_value(ev, fv.a[0], args, line, e)
    ev.eff("call", q="<callable>", args=vals, obj=fv, line=line, node=e)
    for o in ops:
        pass
    return mk("call", "callable", fv, ev.fresh())


def result_of(ev, e, q, args, line, f=None):
    P = ev.fr.P
    t = e.get("t")
    n = ev.fresh()
    if e.get("lv") or (f is not None and P.isref(f.get("ret"))):
        return ref(name(mk("callref", q, n), "%s#%d" % (q.split("::")[-1], n)))
    c = P.cls(t)
    if c in ("cont", "obj", "uarr", "lambda"):
        new = mk("new", "ret:" + q, n)
        ev.objtype[new] = P.strip(t)
        name(new, "%s#%d" % (q.split("::")[-1], n))
        return mk("cobj", new)
    if c == "void":
        return VOID()
    r = name(mk("call", q, n), "%s#%d" % (q.split("::")[-1], n))
    if c in ("ptr", "iter", "sptr"):
        mark_ptr(r)
    if c == "opt":
        return agg("opt", ("has", "val"), [mk("bool", "has", n), mk("call", q + ".val", n)])
    if c == "bool":
        return mk("bool", q, n)
    return r


def opaque(ev, e, q, f, obj, a, line):
    P = ev.fr.P
    if "call:" + q in ev.contracts:
        v = ev.contracts["call:" + q](ev, f, obj, [operand(ev, x) for x in a])
        if v is not NotImplemented:
            return v
    vals = []
    locs = []
    for i, x in enumerate(a):
        pt = f["params"][i]["t"] if f is not None and i < len(f["params"]) else None
        c = P.cls(x.get("t"))
        nonconst = False
        if pt is not None and P.isref(pt):
            tt = P.t(P.t(pt)["p"])
            nonconst = not tt.get("const")
        elif pt is None and x.get("lv"):
            nonconst = not P.t(x.get("t")).get("const") and f is None
        if x.get("lv") or c in ("obj", "cont", "uarr", "lambda", "other") and (x["k"] in CALLK or x["k"] == "MaterializeTemporaryExpr"):
            l = ev.lv(x)
            il = ev.ident(l)
            v = mk("cobj", il) if c in ("obj", "cont", "uarr", "lambda", "other") else ev.load(l, x.get("t"))
            if nonconst:
                locs.append(il)
        else:
            v = ev.rv(x)
        vals.append(v)
    r = result_of(ev, e, q, vals, line, f)
    ev.eff("call", q=q, args=vals, obj=obj, ret=r, line=line, node=e)
    if f is not None and "rec" in f and not f.get("const") and not f.get("static") and obj is not None and not f.get("ctor"):
        ev.havoc_obj(obj, line)
    for l in locs:
        if l.op != "global":
            ev.havoc_obj(l, line)
    for x, v in zip(a, vals):
        # the elements a mutable pointer or iterator argument gives access to
        if P.cls(x.get("t")) in ("ptr", "iter") and f is not None and base_of(v)[0] is not None and not points_to_const(P, x.get("t")):
            l = deref(v)
            if ev.writes is not None:
                ev.writes.add(l)
            ev._forget(l)
    return r


def points_to_const(P, t):
    t = P.strip(t)
    y = P.t(t)
    if y["k"] == "ptr":
        return bool(P.t(y["p"]).get("const"))
    r = P.rec_of(t)
    if r is None or not r.get("targs"):
        return True
    return "const" in r["q"] or points_to_const(P, r["targs"][0]) if P.t(r["targs"][0])["k"] == "ptr" else False


# ---- member functions --------------------------------------------------------------------------------------------------
def recq(ev, t):
    r = ev.fr.P.rec_of(t)
    return r["q"] if r else ""


def elt_type(ev, t):
    r = ev.fr.P.rec_of(t)
    return (r or {}).get("targs", [None])[0] if r and r.get("targs") else None


def mapver(ev, obj):
    return ev.version(fld(obj, "#map"))


def map_touch(ev, obj):
    l = fld(obj, "#map")
    if ev.writes is not None:
        ev.writes.add(l)
    b, p = ev.regkey(l)
    ev.st.ver[(b, p)] = ev.fresh()
    ev.st.env.pop(l, None)
    s = fld(obj, "#size")
    ev.st.env.pop(s, None)
    ev.st.ver[ev.regkey(s)] = ev.fresh()


MAPS, SETS = set(), set()


def int_keyed(ev, obj, t):
    """maps and sets with integer keys are sparse arrays: the slot of key k sits k places after begin(obj), `#in` says whether it is used"""
    if obj in MAPS or obj in SETS:
        return True
    P = ev.fr.P
    r = P.rec_of(t)
    if r is None or not r.get("targs") or P.cls(r["targs"][0]) != "int" or obj.op == "iloc" or not r["q"].startswith("std::"):
        return False
    if r["q"].endswith("map"):
        MAPS.add(obj)
    elif r["q"].endswith("set"):
        SETS.add(obj)
    else:
        return False
    return True


def slot(obj, k):
    return deref(add(mk("begin", obj), k))


def present(ev, obj, k):
    return truth(ev.load(fld(slot(obj, k), "#in")))


def use_slot(ev, obj, k, line=None, there=True):
    """insert or erase key k"""
    was = present(ev, obj, k)
    if was is (TRUE if there else FALSE):
        return was
    n = ev.size_of(obj)
    l = fld(obj, "#map")
    if ev.writes is not None:
        ev.writes.add(l)
    if was is not (TRUE if there else FALSE):
        ev.st.ver[ev.regkey(l)] = ev.fresh()
        ev.st.env.pop(l, None)
    ev.store(fld(slot(obj, k), "#in"), TRUE if there else FALSE, line, quiet=True)
    set_size(ev, obj, add(n, toint(lnot(was))) if there else sub(n, toint(was)))
    return was


def mkey(ev, obj, j):
    """the j-th key met when the map is traversed: an order the program cannot rely on"""
    v = mapver(ev, obj)
    if obj.op == "new":
        # a map with exactly the keys of another one
        o = mark_nn(mk("osym", "key", 0))
        x = present(ev, obj, o)
        for t in walk(x):
            if t.op == "ld" and t.a[0].op == "fld" and t.a[0].a[1] == "#in" and truth(t) is x and t.a[0].a[0].op == "deref":
                b, off = base_of(t.a[0].a[0].a[0])
                if off is o and b.op == "begin" and b.a[0] is not obj:
                    return mark_nn(mk("mkey", b.a[0], j, t.a[1]))
    return mark_nn(mk("mkey", obj, j, v))


def mit(ev, p):
    """the slot a traversal iterator points at"""
    b, off = base_of(p)
    if b is not None and b.op == "mit":
        return add(mk("begin", b.a[0]), mkey(ev, b.a[0], off))
    return p


def find_(ev, obj, key):
    return mark_ptr(mk("find", obj, key, mapver(ev, obj)))


def elem(obj, i):
    if obj.op == "iloc":
        return mk("iloc", obj.a[0], elem(obj.a[1], i), elem(obj.a[2], i))
    if i.op == "ite" and i.a[1].op == i.a[2].op == "c":
        # one of two known elements
        return mk("iloc", i.a[0], elem(obj, i.a[1]), elem(obj, i.a[2]))
    return deref(add(mk("begin", obj), i))


def begin(obj):
    if obj.op == "iloc":
        return ite(obj.a[0], begin(obj.a[1]), begin(obj.a[2]))
    return mk("begin", obj)


def push(ev, e, obj, v, line):
    n = ev.size_of(obj)
    ev.eff("cmut", q="push_back", obj=obj, args=[v], line=line, node=e)
    l = elem(obj, n)
    ev.store(l, v, line, e, quiet=True)
    set_size(ev, obj, add(n, ONE))
    return l


def set_size(ev, obj, n):
    if obj.op == "iloc":
        ev.havoc_obj(obj)
        return
    l = fld(obj, "#size")
    if ev.root(obj)[0].op == "deref":
        ev.store(l, n, quiet=True)
        return
    if ev.writes is not None:
        ev.writes.add(l)
    ev.st.env[l] = n


def construct_elem(ev, t, a, line, e):
    """value of an element of type t constructed in place from arguments a"""
    P = ev.fr.P
    c = P.cls(t) if t is not None else None
    if len(a) == 1 and (c in (None, "int", "float", "bool", "ptr", "iter", "sptr") or P.cls(a[0].get("t")) == c):
        v = ev.rv(a[0])
        if v.op == "ref":
            v = ev.load(v.a[0])
        return v
    if c == "agg":
        return agg("tup", [str(i) for i in range(len(a))], [ev.rv(x) for x in a])
    if c == "opt" and len(a) == 1:
        return ev.mkopt(ev.rv(a[0]))
    if c == "obj":
        v = construct_obj(ev, t, a, line)
        if v is not None:
            return v
    if len(a) == 0:
        return ZERO if c in ("int", "float", "sptr", "ptr") else mk("cobj", mk("new", "def", ev.fresh()))
    vals = [argval(ev, x) for x in a]
    new = mk("new", "elem", ev.fresh())
    ev.objtype[new] = t
    ev.eff("call", q="<construct>", args=vals, obj=new, line=line, node=e)
    return mk("cobj", new)


def construct_obj(ev, t, a, line):
    P = ev.fr.P
    rec = P.rec_of(t)
    if rec is None:
        return None
    cands = []
    for f in P.by_rec.get(rec["id"], []):
        if not f.get("ctor") or len(f["params"]) < len(a) or f.get("deleted"):
            continue
        if len(f["params"]) != len(a):
            continue
        sc = 0
        for p, x in zip(f["params"], a):
            pt, xt = P.strip(p["t"]), P.strip(x.get("t"))
            ps, xs = P.t(pt)["s"].replace("const ", ""), P.t(xt)["s"].replace("const ", "")
            if ps == xs:
                sc += 2
            elif P.cls(pt) == P.cls(xt):
                sc += 1
            else:
                sc -= 10
            pr = P.t(p["t"])["k"]
            if pr == "rref" and x.get("lv"):
                sc -= 10
            if pr == "rref" and not x.get("lv"):
                sc += 1
        cands.append((sc, f))
    cands = [c for c in cands if c[0] >= 0]
    if not cands:
        return None
    f = max(cands, key=lambda c: c[0])[1]
    if len(a) == 1 and f.get("special") in ("copy", "move") and (f.get("defaulted") or f.get("implicit") or "body" not in f):
        loc = ev.ident(ev.lv(a[0]))
        return ev.copy_obj(loc, P.strip(t), move=f["special"] == "move")
    new = mk("new", "ctor", ev.fresh())
    ev.objtype[new] = P.strip(t)
    from .ev import _nm
    _nm().setdefault(new, "%s#%d" % (rec["name"], new.a[1]))
    if ("body" in f or f.get("inits")) and not ev.opaque(f):
        ev.inline(f, new, ev.bind_args(f, a), line)
    else:
        vals = [argval(ev, x) for x in a]
        ev.eff("call", q=f["q"], args=vals, obj=new, line=line)
    return mk("cobj", new)


def member(ev, e, q, f, obj, ot, a, line):
    P = ev.fr.P
    if f is not None and ("body" in f) and f["body"] is not None:
        if expandable(ev, f) and not e.get("virt"):
            return do_inline(ev, f, obj, a, line, e)
        if not q.startswith("std::"):
            return opaque(ev, e, q, f, obj, a, line)
    cq = "::".join(q.split("::")[:-1])
    n = q.split("::")[-1]
    if cq in ("std::vector", "std::deque", "std::array", "std::basic_string", "std::initializer_list", "std::list"):
        r = vec(ev, e, n, obj, ot, a, line)
        if r is not None:
            return r
    if cq in ("std::unordered_map", "std::unordered_set", "std::map", "std::set"):
        r = assoc(ev, e, n, obj, ot, a, line, cq)
        if r is not None:
            return r
    if cq == "std::priority_queue":
        r = pq(ev, e, n, obj, ot, a, line)
        if r is not None:
            return r
    if cq == "std::optional":
        if n in ("operator bool", "has_value"):
            return sel(ev.load(obj), "has")
        if n == "value":
            return ref(fld(obj, "val"))
        if n == "value_or":
            v = ev.load(obj)
            return ite(sel(v, "has"), sel(v, "val"), ev.rv(a[0]))
        if n == "reset":
            ev.store(obj, ev.nullopt(), line, e)
            return VOID()
        if n == "emplace":
            ev.store(obj, ev.mkopt(ev.rv(a[0])), line, e)
            return ref(fld(obj, "val"))
    if "shared_ptr" in cq or cq == "std::weak_ptr" or "weak_ptr" in cq or cq == "std::unique_ptr":
        if P.cls(ot) == "uarr":
            if n == "get":
                return begin(obj)
            if n == "operator bool":
                return mk("bool", "nonnull", obj)
        else:
            v = mark(ev.load(obj))
            if n in ("get", "lock"):
                return v
            if n == "operator bool":
                return truth(v)
            if n == "expired":
                return lnot(truth(v))
            if n == "reset":
                ev.store(obj, ev.rv(a[0]) if a else ZERO, line, e)
                return VOID()
        if n in ("operator=",):
            ev.store(obj, ev.rv(a[0]), line, e)
            return ref(obj)
    if n == "operator=" and a:
        return assign(ev, e, obj, ot, a[0], line)
    if cq.startswith("std::chrono") or cq.startswith("std::basic_") or cq.startswith("rapidjson"):
        vals = [argval(ev, x) for x in a]
        r = result_of(ev, e, q, vals, line)
        ev.eff("call", q=q, args=vals, obj=obj, ret=r, line=line, node=e)
        return r
    return opaque(ev, e, q, f, obj, a, line)


def mark(v):
    if v.op not in ("poly", "c", "ite"):
        mark_ptr(v)
    return v


def refill(ev, e, obj, ot, v, line):
    """assignment to a vector of scalars inside a loop: the elements change, the vector stays (so that the loop summary sees the elements)"""
    P = ev.fr.P
    rec, et = P.rec_of(ot), elt_type(ev, ot)
    if rec is None or rec["q"] != "std::vector" or et is None or P.cls(et) not in ("int", "float") or v.op != "cobj":
        return False
    obj = ev.ident(obj)
    if obj.op == "iloc" or v.a[0] is obj:
        return v.a[0] is obj
    src = v.a[0]
    O, OLD = mk("osym", "assign", ev.fresh()), mk("oldsym", ev.fresh())
    mark_nonneg(O)
    n = ev.size_of(src)
    x = ev.load(deref(add(begin(src), O)), et)
    if x.op in ("cobj", "iobj", "ref", "tie"):
        return False
    ev.eff("cmut", q="operator=", obj=obj, args=[v], line=line, node=e)
    b = begin(obj)
    for k in [k for k in ev.st.env if ev.root(k)[0].op == "deref" and ev.regkey(k)[0] is b]:
        del ev.st.env[k]
    for nm in ("#fill", "#fillver", "#range"):
        ev.st.env.pop(fld(obj, nm), None)
    ev._push_layer(b, ("T", (), x, OLD, O))
    if ev.writes is not None:
        ev.writes.add(deref(add(b, O)))
    set_size(ev, obj, n)
    return True


def assign(ev, e, obj, ot, x, line):
    P = ev.fr.P
    c = P.cls(ot)
    if c in ("cont", "obj", "uarr", "lambda", "other"):
        if x.get("lv") and c in ("cont", "obj"):
            v = ev.copy_obj(ev.ident(ev.lv(x)), P.strip(ot))
        else:
            v = argval(ev, x) if x["k"] in CALLK else ev.rv(x)
        if c == "obj" and v.op == "cobj":
            rec = P.rec_of(ot)
            if rec is not None and obj.op in ("obj", "arg", "new") or obj.op == "refobj":
                # assign field-wise: the object keeps its identity
                for nn, ft in P.fields(rec):
                    ev.store(fld(obj, nn), ev.load(fld(v.a[0], nn), ft), line, e)
                return ref(obj)
        if c == "cont" and ev.loopstack and refill(ev, e, obj, ot, v, line):
            return ref(obj)
        ev.store(obj, v, line, e)
        return ref(obj)
    v = ev.rv(x)
    if c == "opt" and P.cls(x.get("t")) != "opt":
        v = ev.nullopt() if "nullopt" in P.t(P.strip(x.get("t")))["s"] else ev.mkopt(v)
    ev.store(obj, v, line, e)
    return ref(obj)


def vec(ev, e, n, obj, ot, a, line):
    P = ev.fr.P
    if n in ("begin", "cbegin", "data"):
        return begin(obj)
    if n in ("end", "cend"):
        return add(begin(obj), ev.size_of(obj))
    if n in ("size", "length"):
        return ev.size_of(obj)
    if n == "empty":
        return eq(ev.size_of(obj), ZERO)
    if n in ("at", "operator[]"):
        return ref(ev.ident(ev.access(elem(obj, ev.rv(a[0])), line)))
    if n == "back":
        return ref(ev.ident(ev.access(elem(obj, sub(ev.size_of(obj), ONE)), line)))
    if n == "front":
        return ref(ev.ident(ev.access(elem(obj, ZERO), line)))
    if n in ("emplace_back", "push_back"):
        v = construct_elem(ev, elt_type(ev, ot), a, line, e)
        l = push(ev, e, obj, v, line)
        return ref(l)
    if n == "reserve" or n == "shrink_to_fit":
        for x in a:
            ev.rv(x)
        return VOID()
    if n == "resize":
        sz = ev.rv(a[0])
        v = ev.rv(a[1]) if len(a) > 1 else ZERO
        ev.eff("cmut", q="resize", obj=obj, args=[sz, v], line=line, node=e)
        et = elt_type(ev, ot)
        if obj.op != "iloc" and et is not None and ev.fr.P.cls(et) in ("int", "float", "bool"):
            old = ev.size_of(obj)
            O, OLD = mk("osym", "resize", ev.fresh()), mk("oldsym", ev.fresh())
            mark_nonneg(O)
            ev._push_layer(begin(obj), ("T", (), ite(lt(O, old, True), OLD, truth(v) if ev.fr.P.cls(et) == "bool" else v), OLD, O))
            if ev.writes is not None:
                ev.writes.add(deref(add(begin(obj), O)))
        else:
            ev.havoc_obj(obj)
        set_size(ev, obj, sz)
        return VOID()
    if n == "clear":
        ev.eff("cmut", q="clear", obj=obj, args=[], line=line, node=e)
        ev.havoc_obj(obj)
        set_size(ev, obj, ZERO)
        return VOID()
    if n == "pop_back":
        ev.eff("cmut", q="pop_back", obj=obj, args=[], line=line, node=e)
        set_size(ev, obj, sub(ev.size_of(obj), ONE))
        return VOID()
    if n == "swap":
        return swap2(ev, ("loc", obj), ("loc", ev.ident(ev.lv(a[0]))), line, e, ot)
    if n == "insert":
        vals = [ev.rv(x) for x in a]
        sz = ev.size_of(obj)
        ev.eff("cmut", q="insert", obj=obj, args=vals, line=line, node=e)
        ns = None
        if len(vals) == 3 and P.cls(a[1].get("t")) in ("iter", "ptr"):
            ns = add(sz, sub(vals[2], vals[1]))
        elif len(vals) == 2:
            ns = add(sz, ONE)
        et = elt_type(ev, ot)
        if ns is not None and len(vals) == 3 and obj.op != "iloc" and vals[0] is add(begin(obj), sz) and et is not None and P.cls(et) in ("int", "float"):
            # append a range
            O, OLD = mk("osym", "insert", ev.fresh()), mk("oldsym", ev.fresh())
            mark_nonneg(O)
            x = ev.load(deref(add(vals[1], sub(O, sz))), et)
            lo, hi = lt(O, sz, True), lt(O, ns, True)
            lo2, hi2 = lt(O, sz), lt(O, ns)
            x = subst(x, lambda t: FALSE if t is lo or t is lo2 else TRUE if t is hi or t is hi2 else None)
            ev._push_layer(begin(obj), ("T", (), ite(lo, OLD, ite(hi, x, OLD)), OLD, O))
            if ev.writes is not None:
                ev.writes.add(deref(add(begin(obj), O)))
        elif ns is not None and obj.op != "iloc" and et is not None and P.cls(et) in ("int", "float") and not any(x is begin(obj) for x in walk(sub(vals[0], begin(obj)))):
            # anywhere: what follows moves up
            at, k = sub(vals[0], begin(obj)), sub(ns, sz)
            O, OLD = mk("osym", "insert", ev.fresh()), mk("oldsym", ev.fresh())
            mark_nonneg(O)
            x = ev.load(deref(add(vals[1], sub(O, at))), et) if len(vals) == 3 else vals[1]
            y = ev.load(deref(add(begin(obj), sub(O, k))), et)
            ev._push_layer(begin(obj), ("T", (), ite(lt(O, at), OLD, ite(lt(O, add(at, k)), x, ite(lt(O, ns), y, OLD))), OLD, O))
            if ev.writes is not None:
                ev.writes.add(deref(add(begin(obj), O)))
        else:
            ev.havoc_obj(obj)
        if ns is not None:
            set_size(ev, obj, ns)
        return mark_ptr(mk("call", "insert", ev.fresh()))
    if n == "erase":
        vals = [ev.rv(x) for x in a]
        sz = ev.size_of(obj)
        ev.eff("cmut", q="erase", obj=obj, args=vals, line=line, node=e)
        ev.havoc_obj(obj)
        set_size(ev, obj, sub(sz, ONE if len(vals) == 1 else sub(vals[1], vals[0])))
        return mark_ptr(mk("call", "erase", ev.fresh()))
    if n == "assign":
        vals = [ev.rv(x) for x in a]
        ev.eff("cmut", q="assign", obj=obj, args=vals, line=line, node=e)
        ev.havoc_obj(obj)
        if P.cls(a[0].get("t")) in ("iter", "ptr"):
            set_size(ev, obj, sub(vals[1], vals[0]))
        else:
            set_size(ev, obj, vals[0])
        return VOID()
    if n == "operator=":
        return assign(ev, e, obj, ot, a[0], line)
    return None


def assoc(ev, e, n, obj, ot, a, line, cq):
    P = ev.fr.P
    ik = int_keyed(ev, obj, ot)
    if obj in ev.small:
        r = small_assoc(ev, e, n, obj, a, line)
        if r is not None:
            return r
        small_forget(ev, obj)
    if n in ("begin", "cbegin"):
        return mark_ptr(mk("mit", obj)) if ik else begin(obj)
    if n in ("end", "cend"):
        return mark_ptr(mk("mapend", obj))
    if ik and n == "find":
        return add(mk("begin", obj), toint(ev.rv(a[0])))
    if ik and n in ("count", "contains"):
        c = present(ev, obj, toint(ev.rv(a[0])))
        return c if n == "contains" else toint(c)
    if ik and n in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(a) == (2 if obj in MAPS else 1):
        k = toint(ev.rv(a[0]))
        if obj in SETS:
            ev.eff("cmut", q=n, obj=obj, args=[k], line=line, node=e)
            was = use_slot(ev, obj, k, line)
            return agg("tup", ("0", "1"), [add(mk("begin", obj), k), lnot(was)])
        v = argval(ev, a[1]) if P.cls(a[1].get("t")) in ("obj", "cont", "uarr") else ev.rv(a[1])
        ev.eff("cmut", q=n, obj=obj, args=[k, v], line=line, node=e)
        was = present(ev, obj, k)
        l = fld(slot(obj, k), "1")
        use_slot(ev, obj, k, line)
        if v.op in ("cobj", "iobj"):
            if was is FALSE or n == "insert_or_assign":
                ev.st.env[l] = v
            else:
                ev.clobber(l)
        else:
            ev.store(l, v if was is FALSE or n == "insert_or_assign" else ite(was, ev.load(l), v), line, e)
        return agg("tup", ("0", "1"), [add(mk("begin", obj), k), lnot(was)])
    if ik and n == "erase" and len(a) == 1:
        v = ev.rv(a[0])
        if P.cls(a[0].get("t")) in ("iter", "ptr"):
            v = sub(mit(ev, v), mk("begin", obj))
        v = toint(v)
        ev.eff("cmut", q="erase", obj=obj, args=[v], line=line, node=e)
        was = use_slot(ev, obj, v, line, there=False)
        return toint(was)
    if ik and n in ("operator[]", "at"):
        return map_at(ev, obj, ot, toint(ev.rv(a[0])), n, line, e)
    if n == "size":
        return ev.size_of(obj)
    if n == "empty":
        return eq(ev.size_of(obj), ZERO)
    if n == "find":
        return find_(ev, obj, toint(ev.rv(a[0])))
    if n in ("count", "contains"):
        k = toint(ev.rv(a[0]))
        c = mk("bool", "in", obj, k, mapver(ev, obj))
        return c if n == "contains" else toint(c)
    if n in ("emplace", "insert", "try_emplace", "insert_or_assign"):
        if len(a) == 2 and cq.endswith("map"):
            vals = [ev.rv(a[0]), argval(ev, a[1]) if P.cls(a[1].get("t")) in ("obj", "cont", "uarr") else ev.rv(a[1])]
        else:
            vals = [ev.rv(x) for x in a]
        ev.eff("cmut", q=n, obj=obj, args=vals, line=line, node=e)
        new = ev.size_of(obj) is ZERO
        map_touch(ev, obj)
        if cq.endswith("map") and len(vals) == 2:
            p = find_(ev, obj, vals[0])
            l = fld(deref(p), "1")
            if new or n == "insert_or_assign":
                ev.st.env[l] = vals[1]
            else:
                ev.clobber(l)
        else:
            p = find_(ev, obj, vals[0])
        return agg("tup", ("0", "1"), [p, mk("bool", "inserted", ev.fresh())])
    if n == "erase":
        vals = [ev.rv(x) for x in a]
        ev.eff("cmut", q="erase", obj=obj, args=vals, line=line, node=e)
        map_touch(ev, obj)
        return mk("call", "erase", ev.fresh())
    if n in ("operator[]", "at"):
        k = toint(ev.rv(a[0]))
        if n == "operator[]":
            ev.eff("cmut", q="operator[]", obj=obj, args=[k], line=line, node=e)
        return ref(ev.ident(fld(deref(find_(ev, obj, k)), "1")))
    if n == "clear":
        ev.eff("cmut", q="clear", obj=obj, args=[], line=line, node=e)
        map_touch(ev, obj)
        set_size(ev, obj, ZERO)
        return VOID()
    if n == "reserve":
        for x in a:
            ev.rv(x)
        return VOID()
    if n == "operator=":
        return assign(ev, e, obj, ot, a[0], line)
    return None


def map_at(ev, obj, ot, k, n, line, e):
    l = fld(slot(obj, k), "1")
    if n != "at":
        ev.eff("cmut", q="operator[]", obj=obj, args=[k], line=line, node=e)
        r = ev.fr.P.rec_of(ot)
        was = use_slot(ev, obj, k, line)
        vt = r["targs"][1] if r and len(r.get("targs", ())) > 1 else None
        if was is not TRUE and vt is not None and ev.fr.P.cls(vt) in ("int", "float", "bool"):
            ev.store(l, ite(was, ev.load(l, vt), FALSE if ev.fr.P.cls(vt) == "bool" else ZERO), line, e, quiet=True)
        elif was is FALSE and vt is not None and ev.fr.P.cls(vt) == "cont":
            set_size(ev, l, ZERO)
    return ref(ev.ident(l))


# ---- small queues and sets made in the analysed code: up to four elements, each with the condition under which it is there ----
SLOTS = 4


def small_new(ev, obj, cmp=None):
    ev.small[obj] = cmp
    for i in range(SLOTS):
        ev.st.env[fld(obj, "#g%d" % i)] = FALSE
        ev.st.env[fld(obj, "#v%d" % i)] = ZERO


def small_of(ev, obj):
    """the elements, or None when there may be more than the slots hold"""
    if obj not in ev.small:
        return None
    r = []
    for i in range(SLOTS):
        g, v = ev.st.env.get(fld(obj, "#g%d" % i)), ev.st.env.get(fld(obj, "#v%d" % i))
        if g is None or v is None:
            return None
        r.append((truth(g), v))
    return r


def small_set(ev, obj, i, g, v=None):
    ev.store(fld(obj, "#g%d" % i), g)
    if v is not None:
        ev.store(fld(obj, "#v%d" % i), v)


def small_add(ev, obj, v, there=TRUE):
    if obj in ev.draining:
        from .ev import Limit
        raise Limit("a queue grows while it is drained")
    s = small_of(ev, obj)
    i = next((i for i, (g, _) in enumerate(s) if g is FALSE), None)
    if i is None:
        small_forget(ev, obj)
        return
    small_set(ev, obj, i, there, v)


def sum_of(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def small_forget(ev, obj):
    for j in range(SLOTS):
        ev.st.env.pop(fld(obj, "#g%d" % j), None)
    ev.small.pop(obj, None)


def plain(ev, v):
    """a value with no identity of its own"""
    if v.op == "ref":
        v = ev.load(v.a[0])
    if v.op == "cobj":
        t = ev.objtype.get(v.a[0])
        rec = ev.fr.P.rec_of(t) if t is not None else None
        if rec is not None and rec.get("fields"):
            fs = ev.fr.P.fields(rec)
            return agg("rec", [n for n, _ in fs], [plain(ev, ev.load(fld(v.a[0], n), ft)) for n, ft in fs])
    return v


def alike(a, b):
    if a.op == b.op == "agg" and len(a.a) == len(b.a):
        return land(*[alike(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if "ite" in (a.op, b.op) and "agg" in [x.op for v in (a, b) for x in (v.a[1:] if v.op == "ite" else (v,)) if isinstance(x, T)]:
        v, w = (a, b) if a.op == "ite" else (b, a)
        return lor(land(v.a[0], alike(v.a[1], w)), land(lnot(v.a[0]), alike(v.a[2], w)))
    return eq(a, b)


def small_top(ev, obj, line, e):
    """for each element, the condition under which it is the first"""
    s = small_of(ev, obj)
    cmp = ev.small[obj]
    less = lambda x, y: truth(call_value(ev, cmp, [("val", x), ("val", y)], line)) if cmp is not None else lt(x, y)
    r = []
    for i, (g, v) in enumerate(s):
        if g is FALSE:
            r.append(FALSE)
            continue
        c = [g]
        for j, (h, w) in enumerate(s):
            if j != i and h is not FALSE:
                c.append(lor(lnot(h), less(w, v) if j < i else lnot(less(v, w))))
        r.append(land(*c))
    return r


def small_pq(ev, e, n, obj, ot, a, line):
    s = small_of(ev, obj)
    if s is None:
        return None
    ev.queues.add(obj)
    if n == "empty":
        return land(*[lnot(g) for g, _ in s])
    if n == "size":
        return sum_of([toint(g) for g, _ in s])
    if n in ("emplace", "push"):
        v = plain(ev, construct_elem(ev, elt_type(ev, ot), a, line, e))
        ev.eff("cmut", q="pq.push", obj=obj, args=[v], line=line, node=e)
        small_add(ev, obj, v)
        return VOID()
    if n == "top":
        v = None
        for c, (g, x) in reversed(list(zip(small_top(ev, obj, line, e), s))):
            if c is not FALSE:
                v = x if v is None else ite(c, x, v)
        if v is None:
            return None
        l = mk("var", "top", ev.fresh())
        ev.st.env[l] = v
        return ref(l)
    if n == "pop":
        ev.eff("cmut", q="pq.pop", obj=obj, args=[], line=line, node=e)
        for i, c in enumerate(small_top(ev, obj, line, e)):
            if c is not FALSE:
                small_set(ev, obj, i, land(s[i][0], lnot(c)))
        return VOID()
    return None


def small_assoc(ev, e, n, obj, a, line):
    s = small_of(ev, obj)
    if s is None or n not in ("insert", "emplace", "erase", "count", "contains", "size", "empty") or n not in ("size", "empty") and len(a) != 1:
        return None
    if n == "empty":
        return land(*[lnot(g) for g, _ in s])
    if n == "size":
        return sum_of([toint(g) for g, _ in s])
    k = plain(ev, ev.rv(a[0]))
    if k.op in ("cobj", "iobj"):
        return None
    was = lor(*[land(g, alike(v, k)) for g, v in s if g is not FALSE]) if any(g is not FALSE for g, _ in s) else FALSE
    if n in ("count", "contains"):
        return was if n == "contains" else toint(was)
    ev.eff("cmut", q=n, obj=obj, args=[k], line=line, node=e)
    if n == "erase":
        for i, (g, v) in enumerate(s):
            if g is not FALSE:
                small_set(ev, obj, i, land(g, lnot(alike(v, k))))
        return toint(was)
    small_add(ev, obj, k, lnot(was))
    return agg("tup", ("0", "1"), [mark_ptr(mk("find", obj, k, ev.fresh())), lnot(was)])


def pq(ev, e, n, obj, ot, a, line):
    r = small_pq(ev, e, n, obj, ot, a, line)
    if r is not None:
        return r
    if n == "empty":
        return eq(ev.size_of(obj), ZERO)
    if n == "size":
        return ev.size_of(obj)
    if n == "top":
        return ref(name(mk("pqtop", obj, mapver(ev, obj)), "top(%s)" % show(obj)))
    if n in ("emplace", "push"):
        v = construct_elem(ev, elt_type(ev, ot), a, line, e)
        sz = ev.size_of(obj)
        ev.eff("cmut", q="pq.push", obj=obj, args=[v], line=line, node=e)
        map_touch(ev, obj)
        set_size(ev, obj, add(sz, ONE))
        return VOID()
    if n == "pop":
        sz = ev.size_of(obj)
        ev.eff("cmut", q="pq.pop", obj=obj, args=[], line=line, node=e)
        map_touch(ev, obj)
        set_size(ev, obj, sub(sz, ONE))
        return VOID()
    return None


# ---- operators ---------------------------------------------------------------------------------------------------------
def operator(ev, e, q, f, a, line):
    P = ev.fr.P
    op = e.get("op")
    t0 = a[0].get("t")
    c0 = P.cls(t0)
    if f is not None and "body" in f and f["body"] is not None and not f.get("lambda"):
        if expandable(ev, f) and not e.get("virt"):
            if "rec" in f and not f.get("static"):
                this = ev.ident(ev.lv(a[0]))
                return do_inline(ev, f, this, a[1:], line, e)
            return do_inline(ev, f, None, a, line, e)
        obj = ev.ident(ev.lv(a[0])) if "rec" in f else None
        g = dispatch(ev, f, obj)
        if g is not None:
            return do_inline(ev, g, obj, a[1:], line, e)
        return opaque(ev, e, q, f, obj, a[1:] if "rec" in f else a, line)
    if c0 == "lambda" or (f is not None and f.get("lambda")):
        fv = mk("cobj", ev.ident(ev.lv(a[0])))
        return call_value(ev, fv, [operand(ev, x) for x in a[1:]], line, e)
    cq = "::".join(q.split("::")[:-1])
    if op == "()":
        r0 = recq(ev, t0)
        fv = ev.rv(a[0]) if not a[0].get("lv") else (ev.st.env.get(ev.lv(a[0])) or mk("cobj", ev.ident(ev.lv(a[0]))))
        if fv.op in ("fobj", "fn") or (fv.op == "cobj" and fv.a[0] in ev.lams):
            return call_value(ev, fv, [operand(ev, x) for x in a[1:]], line, e)
        obj = ev.ident(ev.lv(a[0]))
        if f is not None and not q.startswith("std::"):
            g = dispatch(ev, f, obj)
            if g is not None:
                return do_inline(ev, g, obj, a[1:], line, e)
            if "call:" + q in ev.contracts:
                v = ev.contracts["call:" + q](ev, f, obj, [operand(ev, x) for x in a[1:]])
                if v is not NotImplemented:
                    return v
        vals = [argval(ev, x) for x in a[1:]]
        if fv.op == "dist":
            if "draw" in ev.contracts:
                v = ev.contracts["draw"](ev, None, None, [("val", fv.a[1]), ("val", fv.a[2])])
                if v is not NotImplemented:
                    return v
            d = mk("draw", fv, ev.fresh(), *[l.k for l in ev.loopstack])
            if nonneg(fv.a[1]) and fv.a[0] == "int":
                mark_nonneg(d)
            ev.eff("draw", q=r0, args=[fv, d], line=line, node=e)
            return d
        if r0 == "std::hash":
            return mk("hash", *vals)
        if f is not None and (e.get("virt") or f.get("virtual") or "body" not in f) and not q.startswith("std::"):
            r = result_of(ev, e, q, vals, line, f)
            ev.eff("call", q=q, args=vals, obj=obj, ret=r, line=line, node=e)
            # non-const reference / iterator arguments may be written through: the caller of the analysis decides
            return r
        r = result_of(ev, e, q, vals, line, f)
        ev.eff("call", q=q, args=vals, obj=obj, ret=r, line=line, node=e)
        return r
    if op == "<<" or op == ">>":
        if "ostream" in q or "basic_ostream" in P.t(P.strip(t0))["s"] or q.startswith("std::operator"):
            l = ev.lv(a[0])
            v = argval(ev, a[1])
            ev.eff("call", q="operator<<", args=[v], obj=l, line=line, node=e)
            return ref(l)
    if c0 in ("iter", "ptr") or (op in ("==", "!=") and q.startswith("std::__detail::")) or (len(a) > 1 and P.cls(a[1].get("t")) in ("iter", "ptr") and op in ("+",)):
        r = iter_op(ev, e, op, a, line)
        if r is not None:
            return r
    if c0 == "sptr":
        if op == "->":
            return mark(ev.rv(a[0]))
        if op == "*":
            return ref(ev.ident(deref(mark(ev.rv(a[0])))))
        if op == "=":
            l = ev.lv(a[0])
            v = ev.rv(a[1])
            ev.store(l, v, line, e)
            return ref(l)
        if op in ("==", "!=", "<"):
            return ev.compare(op, ev.rv(a[0]), ev.rv(a[1]), True)
    if c0 == "uarr":
        if op == "[]":
            return ref(ev.ident(ev.access(elem(ev.ident(ev.lv(a[0])), ev.rv(a[1])), line)))
        if op == "=":
            l = ev.lv(a[0])
            root_l = rawlv(ev, a[0])
            v = ev.rv(a[1])
            ev.store(root_l, v, line, e)
            return ref(l)
        if op in ("==", "!="):
            return mk("bool", "uarr" + op, ev.lv(a[0]))
    if c0 == "cont":
        if op == "[]":
            obj = ev.ident(ev.lv(a[0]))
            if "map" in recq(ev, t0):
                k = toint(ev.rv(a[1]))
                if int_keyed(ev, obj, t0):
                    return map_at(ev, obj, t0, k, "[]", line, e)
                ev.eff("cmut", q="operator[]", obj=obj, args=[k], line=line, node=e)
                return ref(ev.ident(fld(deref(find_(ev, obj, k)), "1")))
            return ref(ev.ident(ev.access(elem(obj, ev.rv(a[1])), line)))
        if op == "=":
            l = rawlv(ev, a[0])
            return assign(ev, e, l, t0, a[1], line)
        if op in ("==", "!="):
            x, y = ev.ident(ev.lv(a[0])), ev.ident(ev.lv(a[1]))
            r = mk("bool", "conteq", *sorted((x, y), key=lambda t: t.id))
            return r if op == "==" else lnot(r)
    if c0 == "opt":
        if op == "*":
            return ref(fld(ev.lv(a[0]), "val"))
        if op == "->":
            return addr(fld(ev.lv(a[0]), "val"))
        if op == "=":
            return assign(ev, e, ev.lv(a[0]), t0, a[1], line)
        if op in ("==", "!="):
            x, y = ev.rv(a[0]), ev.rv(a[1])
            if P.cls(a[1].get("t")) == "opt":
                r = eq(sel(x, "has"), sel(y, "has"))
                r = land(r, lor(lnot(sel(x, "has")), eq(sel(x, "val"), sel(y, "val"))))
            elif "nullopt" in P.t(P.strip(a[1].get("t")))["s"]:
                r = lnot(sel(x, "has"))
            else:
                r = land(sel(x, "has"), eq(sel(x, "val"), y))
            return r if op == "==" else lnot(r)
    if c0 == "agg":
        if op == "=":
            lhs = ev.lv(a[0])
            v0 = ev.st.env.get(lhs)
            v = ev.rv(a[1])
            if v0 is not None and v0.op == "tie":
                for i, l in enumerate(v0.a):
                    ev.store(l, sel(v, str(i)), line, e)
                return ref(lhs)
            ev.store(lhs, v, line, e)
            return ref(lhs)
        if op in ("==", "!="):
            x, y = ev.rv(a[0]), ev.rv(a[1])
            n = len(elts(x)) if elts(x) else (len(elts(y)) if elts(y) else 2)
            r = land(*[eq(sel(x, str(i)), sel(y, str(i))) for i in range(n)])
            return r if op == "==" else lnot(r)
    if c0 == "obj" and op == "=":
        return assign(ev, e, ev.lv(a[0]), t0, a[1], line)
    if op == "[]":
        return ref(ev.ident(ev.access(elem(ev.ident(ev.lv(a[0])), ev.rv(a[1])), line)))
    if op == "=":
        return assign(ev, e, ev.lv(a[0]), t0, a[1], line)
    return opaque(ev, e, q, f, None, a, line)


def elts(v):
    return v.a[1] if v.op == "agg" else None


def rawlv(ev, x):
    """location holding a handle (not the object it denotes), so that an assignment replaces the handle"""
    P = ev.fr.P
    while x["k"] in ("ImplicitCastExpr", "ParenExpr") and x.get("c"):
        x = x["c"][0]
    if x["k"] == "MemberExpr" and "f" not in x:
        if x.get("arrow"):
            base = ev.ident(deref(ev.rv(x["c"][0])))
        else:
            base = ev.ident(ev.lv(x["c"][0]))
        if base.op != "iloc":
            r = P.records.get(x.get("r"))
            isref = r and any(f["n"] == x["m"] and P.isref(f["t"]) for f in r.get("fields", []))
            if not isref:
                return fld(base, x["m"])
    if x["k"] == "DeclRefExpr":
        b = ev.fr.bind.get(x["d"])
        if b is not None:
            return b
    return ev.lv(x)


def iter_op(ev, e, op, a, line):
    P = ev.fr.P
    if op == "*":
        p = ev.rv(a[0])
        q = mit(ev, p)
        if q is not p:
            return ref(ev.ident(deref(q)))
        return ref(ev.ident(ev.access(deref(mark(p)), line)))
    if op == "->":
        return mit(ev, mark(ev.rv(a[0])))
    if op == "[]":
        return ref(ev.ident(ev.access(deref(add(mark(ev.rv(a[0])), toint(ev.rv(a[1])))), line)))
    if op in ("++", "--"):
        l = ev.lv(a[0])
        old = ev.load(l, a[0].get("t"))
        if old.op in ("find", "begin") and "Node" in P.t(P.strip(a[0].get("t")))["s"]:
            pass
        ev.store(l, add(old, ONE) if op == "++" else sub(old, ONE), line, e)
        return old if len(a) > 1 else ref(l)
    if op in ("+=", "-="):
        l = ev.lv(a[0])
        old = ev.load(l, a[0].get("t"))
        v = toint(ev.rv(a[1]))
        ev.store(l, add(old, v) if op == "+=" else sub(old, v), line, e)
        return ref(l)
    if op == "=":
        l = ev.lv(a[0])
        v = ev.rv(a[1])
        ev.store(l, v, line, e)
        return ref(l)
    if op in ("+", "-") and len(a) == 2:
        x, y = ev.rv(a[0]), ev.rv(a[1])
        return add(x, toint(y)) if op == "+" else sub(x, toint(y))
    if op in ("==", "!=", "<", ">", "<=", ">="):
        x, y = ev.rv(a[0]), ev.rv(a[1])
        for u, w in ((x, y), (y, x)):
            if u.op == "find" and w.op == "mapend" and u.a[0] is w.a[0]:
                r = lnot(mk("bool", "in", u.a[0], u.a[1], u.a[2]))
                return r if op == "==" else lnot(r)
            if w.op == "mapend":
                b, off = base_of(u)
                if b is not None and b.op == "begin" and (b.a[0] in MAPS or b.a[0] in SETS) and b.a[0] is w.a[0]:
                    r = lnot(present(ev, b.a[0], off))
                    return r if op == "==" else lnot(r)
                if b is not None and b.op == "mit" and b.a[0] is w.a[0]:
                    r = eq(off, ev.size_of(b.a[0]))
                    return r if op == "==" else lnot(r)
                if b is not None and b.op == "begin" and b.a[0] is w.a[0]:
                    n = ev.size_of(b.a[0])
                    r = eq(off, n)
                    return r if op == "==" else lnot(r)
        return ev.compare(op, x, y, True)
    return None


# ---- free functions ----------------------------------------------------------------------------------------------------
FREE = {}


def free(*names):
    def d(fn):
        for n in names:
            FREE[n] = fn
        return fn
    return d


@free("uf")
def f_uf(ev, e, a, line):
    """an uninterpreted function of the laws: uf(tag, arguments...)"""
    t = mk("uf", *[toint(ev.rv(x)) for x in a])
    return t


@free("sl::ufp")
@free("ufp")
def f_ufp(ev, e, a, line):
    t = mk("ufp", *[toint(ev.rv(x)) for x in a])
    mark_ptr(t)
    return t


@free("ghost")
def f_ghost(ev, e, a, line):
    """a ghost number attached to an object (contracts accumulate into it)"""
    return ref(fld(ev.ident(ev.lv(a[0])), "#ghost"))


@free("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")
def f_move(ev, e, a, line):
    if len(a) == 3:
        return f_copy(ev, e, a, line)
    P = ev.fr.P
    x = a[0]
    if not x.get("lv"):
        v = ev.rv(x)
        if v.op == "ref":
            return v
        if v.op == "cobj":
            return v
        l = mk("var", "tmp", ev.fresh())
        ev.st.env[l] = v
        return ref(l)
    return ref(ev.lv(x))


@free("std::make_move_iterator")
def f_id(ev, e, a, line):
    return ev.rv(a[0])


@free("std::distance")
def f_distance(ev, e, a, line):
    x, y = ev.rv(a[0]), ev.rv(a[1])
    if x.op == "mit" and y.op == "mapend" and x.a[0] is y.a[0]:
        return ev.size_of(x.a[0])
    return sub(y, x)


@free("std::next")
def f_next(ev, e, a, line):
    return add(ev.rv(a[0]), toint(ev.rv(a[1])) if len(a) > 1 and a[1]["k"] != "CXXDefaultArgExpr" else ONE)


@free("std::prev")
def f_prev(ev, e, a, line):
    return sub(ev.rv(a[0]), toint(ev.rv(a[1])) if len(a) > 1 and a[1]["k"] != "CXXDefaultArgExpr" else ONE)


@free("std::advance")
def f_advance(ev, e, a, line):
    l = ev.lv(a[0])
    ev.store(l, add(ev.load(l, a[0].get("t")), toint(ev.rv(a[1]))), line, e)
    return VOID()


def isintargs(ev, a):
    P = ev.fr.P
    return all(P.isint(x.get("t")) for x in a)


def vals_of(ev, a):
    if len(a) == 1 or (len(a) == 2 and ev._initlist(a[0]) is not None):
        il = ev._initlist(a[0])
        if il is not None:
            return [toint(ev.rv(x)) for x in il], isintargs(ev, il)
        return None, False
    return [toint(ev.rv(x)) for x in a[:2]], isintargs(ev, a[:2])


def tmin(a, b, i=False):
    return ite(lt(b, a, i), b, a)


def tmax(a, b, i=False):
    return ite(lt(a, b, i), b, a)


def _minmax(fold):
    def g(ev, e, a, line):
        if len(a) == 3:
            return None
        v, i = vals_of(ev, a)
        if v is None:
            return None
        r = v[0]
        for x in v[1:]:
            r = fold(r, x, i)
        return r
    return g


FREE["std::min"] = _minmax(tmin)
FREE["std::max"] = _minmax(tmax)


@free("std::clamp")
def f_clamp(ev, e, a, line):
    v, lo, hi = [toint(ev.rv(x)) for x in a[:3]]
    i = isintargs(ev, a[:3])
    return ite(lt(v, lo, i), lo, ite(lt(hi, v, i), hi, v))


def tabs(x):
    if x.op == "c":
        return mk("c", abs(x.a[0]))
    if x.op == "abs":
        return x
    if x.op == "ite":
        return ite(x.a[0], tabs(x.a[1]), tabs(x.a[2]))
    if lead_sign(x) < 0:
        x = neg(x)
    return mk("abs", x)


@free("std::abs", "abs", "fabs", "std::fabs", "fabsf", "labs")
def f_abs(ev, e, a, line):
    return tabs(toint(ev.rv(a[0])))


@free("std::sqrt", "sqrt", "sqrtf")
def f_sqrt(ev, e, a, line):
    return mk("sqrt", toint(ev.rv(a[0])))


@free("std::pow", "pow")
def f_pow(ev, e, a, line):
    x, y = toint(ev.rv(a[0])), toint(ev.rv(a[1]))
    if y is const(2):
        return mul(x, x)
    if y is ONE:
        return x
    if y.op == "c" and y.a[0] == Fraction(1, 2):
        return mk("sqrt", x)
    return mk("pow", x, y)


for _n in ("log", "exp", "floor", "ceil", "round", "log2", "cbrt"):
    def _g(n):
        def g(ev, e, a, line):
            return mk("fn1", n, toint(ev.rv(a[0])))
        return g
    FREE[_n] = FREE["std::" + _n] = _g(_n)


@free("std::isnan", "std::isinf", "std::isfinite")
def f_is(ev, e, a, line):
    return mk("bool", e["q"], ev.rv(a[0]))


@free("std::numeric_limits::infinity")
def f_inf(ev, e, a, line):
    return INF if ev.fr.P.t(e["t"])["k"] == "float" else ZERO


@free("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest", "std::numeric_limits::epsilon")
def f_lim(ev, e, a, line):
    t = ev.fr.P.t(e["t"])
    n = e["q"].split("::")[-1]
    if t["k"] == "int":
        bits, uns = t.get("bits", 64), t.get("uns")
        if n == "max":
            return mk("limit", "max", t["s"])
        if n in ("min", "lowest"):
            return ZERO if uns else const(-2 ** (bits - 1))
    if n == "lowest":
        return neg(mk("limit", "max", t["s"]))
    return mk("limit", n, t["s"])


@free("std::swap", "std::iter_swap", "std::exchange")
def f_swap(ev, e, a, line):
    P = ev.fr.P
    if e["q"] == "std::iter_swap":
        x = ("loc", deref(mark(ev.rv(a[0]))))
        y = ("loc", deref(mark(ev.rv(a[1]))))
        return swap2(ev, x, y, line, e, None)
    if e["q"] == "std::exchange":
        l = rawlv(ev, a[0])
        old = ev.load(l)
        ev.store(l, ev.rv(a[1]), line, e)
        return old
    return swap2(ev, ("loc", rawlv(ev, a[0])), ("loc", rawlv(ev, a[1])), line, e, a[0].get("t"))


def handle(ev, l, t):
    P = ev.fr.P
    if t is not None and P.cls(t) in ("cont", "obj", "uarr"):
        v = ev.st.env.get(l)
        if v is not None:
            return v
        return mk("cobj", l)
    return ev.load(l)


def swap2(ev, x, y, line, e, t):
    lx, ly = x[1], y[1]
    vx, vy = handle(ev, lx, t), handle(ev, ly, t)
    ev.eff("swap", args=[lx, ly], line=line, node=e, q="swap")
    ev.store(lx, vy, line, e)
    ev.store(ly, vx, line, e)
    return VOID()


@free("std::bind")
def f_bind(ev, e, a, line):
    vals = [argval(ev, x) for x in a]
    out = []
    for v in vals:
        n = show(v, 3)
        m = re.search(r"placeholders::_(\d)\b", n) if v.op == "cobj" else None
        out.append(mk("hole", int(m.group(1))) if m else v)
    if any(v.op == "cobj" for v in out[1:]):
        return NotImplemented
    return mk("bindobj", *out)


@free("std::make_pair", "std::make_tuple", "std::forward_as_tuple")
def f_mkpair(ev, e, a, line):
    return agg("tup", [str(i) for i in range(len(a))], [ev.rv(x) for x in a])


@free("std::tie")
def f_tie(ev, e, a, line):
    return mk("tie", *[ev.lv(x) for x in a])


@free("std::make_optional")
def f_mkopt(ev, e, a, line):
    return ev.mkopt(ev.rv(a[0]))


@free("std::get", "std::get_if")
def f_get(ev, e, a, line):
    P = ev.fr.P
    ta = str(e.get("ta", ""))
    t0 = a[0].get("t")
    m = re.match(r"\s*(\d+)", ta)
    if m and P.cls(t0) == "agg" or (m and "tuple" in P.t(P.strip(t0))["s"]):
        i = m.group(1)
        if a[0].get("lv") or a[0]["k"] in CALLK:
            return ref(ev.ident(fld(ev.lv(a[0]), i)))
        return sel(ev.rv(a[0]), i)
    l = ev.lv(a[0])
    return ref(fld(l, "<%s>" % short(P, e)))


def short(P, e):
    return P.t(P.strip(e.get("t")))["s"].replace("const ", "")


@free("std::holds_alternative")
def f_holds(ev, e, a, line):
    l = ev.ident(ev.lv(a[0]))
    alt = ev.alts.get(l)
    if alt is not None:
        ta = re.sub(r"\s+", "", str(e.get("ta", ""))).replace("const", "")
        return TRUE if ta.startswith(re.sub(r"\s+", "", alt) + ",") else FALSE
    return mk("bool", "holds", ev.load(l), str(e.get("ta", "")))


@free("std::visit")
def f_visit(ev, e, a, line):
    """one visitor, one variant whose alternative is known"""
    if len(a) != 2 or not a[1].get("lv"):
        return None
    P = ev.fr.P
    l = ev.ident(ev.lv(a[1]))
    alt = ev.alts.get(l)
    fv = fnval(ev, a[0])
    info = ev.lams.get(fv.a[0]) if fv.op == "cobj" else None
    if alt is None or info is None:
        return None
    norm = lambda s: re.sub(r"\s+", "", s).replace("const", "").rstrip("&")
    for g in lambda_fn(ev, info):
        if len(g["params"]) == 1 and norm(P.t(P.strip(g["params"][0]["t"]))["s"]) == norm(alt):
            r = ev.inline(g, fv.a[0], [("loc", ev.ident(fld(l, "<%s>" % alt)))], line)
            return r if r is not None else VOID()
    return None


@free("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty", "std::data")
def f_begin(ev, e, a, line):
    P = ev.fr.P
    if len(a) == 1 and P.cls(a[0].get("t")) == "cont":
        rec = P.rec_of(P.strip(a[0].get("t")))
        if rec is not None and rec["q"] in ("std::vector", "std::deque", "std::array", "std::basic_string", "std::initializer_list"):
            return vec(ev, e, e["q"].split("::")[-1], ev.ident(ev.lv(a[0])), a[0].get("t"), [], line)
    return None


@free("std::equal")
def f_equal(ev, e, a, line):
    a = policy(ev, a)
    P = ev.fr.P
    its = [P.cls(x.get("t")) in ("iter", "ptr") for x in a]
    if its not in ([True] * 3, [True] * 4, [True] * 3 + [False], [True] * 4 + [False]):
        return None
    f, l, g = (ev.rv(x) for x in a[:3])
    n = sub(l, f)
    fn = fnval(ev, a[-1]) if not its[-1] else mk("fobj", "std::equal_to")
    body, bv = lam_over(ev, f, lambda loc, k: lnot(truth(deref_ret(ev, call_value(ev, fn, [("loc", loc), ("loc", ev.ident(deref(add(g, k))))], line)))))
    r = lnot(mk("bool", "exists", n, body))
    return land(eq(sub(ev.rv(a[3]), g), n), r) if sum(its) == 4 else r


@free("std::make_shared", "std::make_unique")
def f_make(ev, e, a, line):
    P = ev.fr.P
    t = e.get("t")
    c = P.cls(t)
    rec = P.rec_of(t)
    et = rec["targs"][0] if rec and rec.get("targs") else None
    if c == "uarr":
        n = ev.rv(a[0])
        new = mk("new", "uarr", ev.fresh())
        ev.objtype[new] = P.strip(t)
        from .ev import _nm
        _nm().setdefault(new, "arr%d" % new.a[1])
        ev.st.env[fld(new, "#size")] = n
        ee = P.t(et).get("p") if et is not None else None
        if ee is None or P.cls(ee) in ("int", "float", "ptr", "sptr"):
            ev.st.env[fld(new, "#fill")] = ZERO
        elif P.cls(ee) == "bool":
            ev.st.env[fld(new, "#fill")] = FALSE
        ev.eff("cmut", q="ctor-fill", obj=new, args=[n, ZERO], line=line, node=e)
        return mk("cobj", new)
    ec = P.cls(et) if et is not None else None
    if ec == "obj":
        v = construct_obj(ev, et, a, line)
        if v is not None:
            return addr(v.a[0])
    elif ec == "cont":
        vals = [argval(ev, x) for x in a]
        if len(vals) == 1 and vals[0].op == "cobj":
            return addr(vals[0].a[0])
        new = mk("new", "cont", ev.fresh())
        ev.objtype[new] = et
        ev.eff("cmut", q="ctor:make", obj=new, args=vals, line=line, node=e)
        if not vals:
            ev.st.env[fld(new, "#size")] = ZERO
        return addr(new)
    vals = [argval(ev, x) for x in a]
    new = mk("new", "make", ev.fresh())
    ev.objtype[new] = et
    ev.eff("call", q="<make>", args=vals, obj=new, line=line, node=e)
    if ec in ("int", "float", "bool") and vals:
        ev.st.env[new] = vals[0]
    return addr(new)


@free("std::back_inserter")
def f_backins(ev, e, a, line):
    return mk("backins", ev.ident(ev.lv(a[0])))


# ---- algorithms as traversals --------------------------------------------------------------------------------------------
class _S(dict):
    pass


def each(ev, line, first, n, body):
    """body(elt) for the n elements from first"""
    holder = {}

    def bind(elt):
        holder["e"] = elt
    ev.iter_loop({"l": line}, first, n, bind, lambda: body(ev.ident(holder["e"])))


def policy(ev, a):
    """drop a leading execution policy argument"""
    P = ev.fr.P
    if a and "execution" in P.t(P.strip(a[0].get("t")))["s"]:
        return a[1:]
    return a


def cur_k(ev):
    return ev.loopstack[-1].k


def fnval(ev, x):
    P = ev.fr.P
    if x.get("lv"):
        l = ev.lv(x)
        v = ev.st.env.get(l)
        if v is not None and v.op in ("cobj", "fobj", "fn", "bindobj"):
            return v
        return mk("cobj", ev.ident(l))
    return ev.rv(x)


def out_store(ev, out, v, line, e, counter=None):
    if out.op == "backins":
        push(ev, e, out.a[0], v, line)
        return
    ev.store(ev.ident(deref(add(out, cur_k(ev)))), v, line, e)


@free("std::for_each", "std::for_each_n")
def f_foreach(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    fn = fnval(ev, a[2])
    each(ev, line, f, sub(l, f) if not e["q"].endswith("_n") else l, lambda x: call_value(ev, fn, [("loc", x)], line))
    return fn


@free("std::transform")
def f_transform(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    n = sub(l, f)
    if len(a) == 4:
        out = ev.rv(a[2])
        fn = fnval(ev, a[3])
        each(ev, line, f, n, lambda x: out_store(ev, out, deref_ret(ev, call_value(ev, fn, [("loc", x)], line)), line, e))
    else:
        f2 = ev.rv(a[2])
        out = ev.rv(a[3])
        fn = fnval(ev, a[4])
        each(ev, line, f, n, lambda x: out_store(ev, out, deref_ret(ev, call_value(ev, fn, [("loc", x), ("loc", ev.ident(deref(add(f2, cur_k(ev)))))], line)), line, e))
    return add(out, n) if out.op != "backins" else out


def deref_ret(ev, v):
    return ev.load(v.a[0]) if v.op == "ref" else v


@free("std::copy", "std::copy_n")
def f_copy(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    out = ev.rv(a[2])
    n = sub(l, f) if not e["q"].endswith("_n") else toint(l)
    each(ev, line, f, n, lambda x: out_store(ev, out, ev.load(x), line, e))
    return add(out, n) if out.op != "backins" else out


@free("std::copy_if")
def f_copyif(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    out = ev.rv(a[2])
    fn = fnval(ev, a[3])

    def body(x):
        c = truth(call_value(ev, fn, [("loc", x)], line))
        if out.op == "backins":
            ev.branch(c, lambda: push(ev, e, out.a[0], ev.load(x), line), None)
        else:
            ev.branch(c, lambda: ev.havoc_obj(deref(add(out, mk("call", "copy_if", ev.fresh())))), None)
    each(ev, line, f, sub(l, f), body)
    return mark_ptr(mk("call", "copy_if", ev.fresh()))


@free("std::fill", "std::fill_n")
def f_fill(ev, e, a, line):
    a = policy(ev, a)
    f, l, v = ev.rv(a[0]), ev.rv(a[1]), ev.rv(a[2])
    each(ev, line, f, sub(l, f) if not e["q"].endswith("_n") else l, lambda x: ev.store(x, v, line, e))
    return VOID()


@free("std::iota")
def f_iota(ev, e, a, line):
    f, l, v = ev.rv(a[0]), ev.rv(a[1]), toint(ev.rv(a[2]))
    each(ev, line, f, sub(l, f), lambda x: ev.store(x, add(v, cur_k(ev)), line, e))
    return VOID()


def fold(ev, line, f, n, init, step):
    acc = mk("var", "acc", ev.fresh())
    ev.st.env[acc] = init
    each(ev, line, f, n, lambda x: ev.store(acc, deref_ret(ev, step(ev.st.env[acc], x))))
    return ev.st.env[acc]


@free("std::accumulate", "std::reduce")
def f_acc(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    init = toint(ev.rv(a[2])) if len(a) > 2 else ZERO
    fn = fnval(ev, a[3]) if len(a) > 3 else mk("fobj", "std::plus")
    trunc = len(a) > 2 and ev.fr.P.t(ev.fr.P.strip(a[2].get("t")))["k"] == "int" and ev.fr.P.t(ev.fr.P.strip(e["t"]))["k"] == "int"
    et = None
    return fold(ev, line, f, sub(l, f), init, lambda acc, x: call_value(ev, fn, [("val", acc), ("loc", x)], line))


@free("std::inner_product", "std::transform_reduce")
def f_inner(ev, e, a, line):
    a = policy(ev, a)
    P = ev.fr.P
    f, l = ev.rv(a[0]), ev.rv(a[1])
    n = sub(l, f)
    unary = len(a) == 5 and e["q"].endswith("transform_reduce") and P.cls(a[2].get("t")) not in ("iter", "ptr")
    if unary:
        init = toint(ev.rv(a[2]))
        op1, op2 = fnval(ev, a[3]), fnval(ev, a[4])
        return fold(ev, line, f, n, init, lambda acc, x: call_value(ev, op1, [("val", acc), ("val", deref_ret(ev, call_value(ev, op2, [("loc", x)], line)))], line))
    f2 = ev.rv(a[2])
    init = toint(ev.rv(a[3]))
    op1 = fnval(ev, a[4]) if len(a) > 4 else mk("fobj", "std::plus")
    op2 = fnval(ev, a[5]) if len(a) > 5 else mk("fobj", "std::multiplies")
    return fold(ev, line, f, n, init, lambda acc, x: call_value(ev, op1, [("val", acc), ("val", deref_ret(ev, call_value(ev, op2, [("loc", x), ("loc", ev.ident(deref(add(f2, cur_k(ev)))))], line)))], line))


def cmpkey(ev, a, i):
    """comparator applied to two generic operands, as a term"""
    if len(a) <= i:
        return None
    fn = fnval(ev, a[i])
    x, y = mk("cmp", 0), mk("cmp", 1)
    lx, ly = mk("var", "cx", ev.fresh()), mk("var", "cy", ev.fresh())
    ev.st.env[lx], ev.st.env[ly] = x, y
    return truth(call_value(ev, fn, [("loc", lx), ("loc", ly)], e_line(a)))


def e_line(a):
    return a[0]["l"]


def lam_over(ev, f, fn):
    """fn(element location) as a function of the element's position: (body over a bound variable, bound variable)"""
    k = name(mk("k", "lam", ev.fresh()), "kl")
    mark_nonneg(k)
    r = fn(ev.ident(deref(add(f, k))), k)
    d = max([0] + [x.a[0] for x in walk(r) if x.op == "bv"])
    bv = name(mk("bv", d + 1), "i%d" % (d + 1))
    return with_bv(subst(r, lambda t: bv if t is k else None), bv), bv


def _sortkey(key):
    """g when the comparison is g(x) < g(y) (negated: g(y) < g(x)); works on cmp(0), cmp(1)"""
    if key is None:
        return (lambda v: v), mk("cmp", 0)
    if key.op != "lt":
        return None
    d = poly(key.a[0])
    p0, p1 = {}, {}
    for m, c in d.items():
        has0 = any(x.op == "cmp" and x.a[0] == 0 for t in m for x in walk(t))
        has1 = any(x.op == "cmp" and x.a[0] == 1 for t in m for x in walk(t))
        if has0 == has1:
            return None
        (p0 if has0 else p1)[m] = c
    g0, g1 = unpoly(p0), unpoly(p1)
    sw = lambda t: mk("cmp", 1) if t.op == "cmp" and t.a[0] == 0 else None
    if add(subst(g0, sw), g1) is not ZERO:
        return None
    return True, g0


def _extremum(kind):
    def g(ev, e, a, line):
        a = policy(ev, a)
        f, l = ev.rv(a[0]), ev.rv(a[1])
        key = cmpkey(ev, a, 2)
        n = sub(l, f)
        sk = _sortkey(key)
        off = None
        if sk is not None:
            def at(loc):
                def r(t):
                    path = []
                    while t.op == "sel":
                        path.append(t.a[1])
                        t = t.a[0]
                    if t.op == "cmp":
                        l2 = loc
                        for p in reversed(path):
                            l2 = fld(l2, p)
                        return ev.load(l2)
                    return None
                return subst(sk[1], r)
            if n.op == "c" and 1 <= n.a[0] <= 2:
                # one or two candidates: the comparison itself
                x = [at(ev.ident(deref(add(f, const(i))))) for i in range(int(n.a[0]))]
                if not any(y.op in ("cmp", "cobj", "iobj") for v in x for y in walk(v)):
                    if len(x) == 1:
                        return f
                    return add(f, mark_nn(ite(lt(x[1], x[0]) if kind == "min" else lt(x[0], x[1]), ONE, ZERO)))
            body, bv = lam_over(ev, f, lambda loc, k: agg("ext", ("x", "if", "y"), [at(loc), ONE, k]))
            if not any(x.op == "cmp" for x in walk(body)):
                x0 = at(ev.ident(deref(f)))
                if not any(x.op in ("cobj", "iobj") for x in list(walk(body)) + [x0]):
                    off = mk("at" + kind, ZERO, x0, n, body, mk("strict"))
                    mark_nonneg(off)
        if off is None:
            v = ev.version(deref(f))
            off = mk("arg" + kind, f, n, v, key if key is not None else mk("less"))
        return add(mark(f) if f.op not in ("poly", "ite") else f, off)
    return g


FREE["std::min_element"] = _extremum("min")
FREE["std::max_element"] = _extremum("max")


@free("std::minmax_element")
def f_mme(ev, e, a, line):
    return agg("tup", ("0", "1"), [FREE["std::min_element"](ev, e, a, line), FREE["std::max_element"](ev, e, a, line)])


def first_of(n, body):
    r = mk("firstk", mk("bool", "exists", n, body))
    mark_nonneg(r)
    return r


@free("std::find")
def f_find(ev, e, a, line):
    a = policy(ev, a)
    f, l, v = ev.rv(a[0]), ev.rv(a[1]), toint(ev.rv(a[2]))
    body, bv = lam_over(ev, f, lambda loc, k: eq(ev.load(loc), v))
    return add(f, first_of(sub(l, f), body))


@free("std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::count")
def f_findif(ev, e, a, line):
    a = policy(ev, a)
    f, l = ev.rv(a[0]), ev.rv(a[1])
    w = e["q"].split("::")[-1]
    n = sub(l, f)
    if w == "count":
        v = toint(ev.rv(a[2]))
        body, bv = lam_over(ev, f, lambda loc, k: ite(eq(ev.load(loc), v), ONE, ZERO))
        return tsum(n, body, bv)
    fn = fnval(ev, a[2])
    pred = lambda loc, k: truth(call_value(ev, fn, [("loc", loc)], line))
    if w == "count_if":
        body, bv = lam_over(ev, f, lambda loc, k: ite(pred(loc, k), ONE, ZERO))
        return tsum(n, body, bv)
    neg_ = w in ("all_of", "find_if_not")
    body, bv = lam_over(ev, f, lambda loc, k: lnot(pred(loc, k)) if neg_ else pred(loc, k))
    if w.startswith("find"):
        return add(f, first_of(n, body))
    r = mk("bool", "exists", n, body)
    return r if w == "any_of" else lnot(r)


@free("std::sort", "std::stable_sort", "std::nth_element", "std::partial_sort", "std::reverse", "std::shuffle", "std::rotate", "std::random_shuffle")
def f_sort(ev, e, a, line):
    P = ev.fr.P
    a = policy(ev, a)
    vals = []
    key = None
    for i, x in enumerate(a):
        if P.cls(x.get("t")) in ("iter", "ptr"):
            vals.append(ev.rv(x))
        else:
            if "sort" in e["q"] or "nth" in e["q"]:
                key = cmpkey(ev, a, i)
            else:
                ev.lv(x)
    ev.eff("permute", q=e["q"], args=vals + ([key] if key is not None else []), line=line, node=e)
    l = deref(vals[0])
    if e["q"].split("::")[-1] in ("sort", "stable_sort") and len(vals) == 2 and not ev.loopstack and not ev.dry:
        b, off = base_of(vals[0])
        g = _sortkey(key)
        if b is not None and off is ZERO and g is not None:
            def keyof(loc, k):
                def r(t):
                    if t.op == "sel" and t.a[0].op == "cmp":
                        return ev.load(fld(loc, t.a[1]))
                    if t.op == "cmp":
                        return ev.load(loc)
                    return None
                return subst(g[1], r)
            body, bv = lam_over(ev, vals[0], keyof)
            n = sub(vals[1], vals[0])
            ev._push_layer(b, ("perm", (), mk("sorted", body, ev.fresh()), n))
            return VOID()
    if ev.writes is not None:
        ev.writes.add(l)
    b, p = ev.regkey(l)
    ev.st.ver[(b, p)] = ev.fresh()
    ev.st.lay.pop(b, None)
    for k in [k for k in ev.st.env if k.op != "var" and ev.root(k)[0].op != "var" and ev.regkey(k)[0] is b]:
        del ev.st.env[k]
    return VOID()


@free("std::operator==", "std::operator!=")
def f_opeq(ev, e, a, line):
    return None
