"""Type-checked program model on top of the extractor's JSON."""
import re


class Prog:
    def __init__(self, d, root):
        self.d = d
        self.types = d["types"]
        self.records = {r["id"]: r for r in d["records"]}
        self.fns = {}
        self.root = root
        self.files = [f.split("/include/")[-1] if "/include/ffcl" in f else f for f in d["files"]]
        for f in d["functions"]:
            f["P"] = self
            o = self.fns.get(f["id"])
            if o is None or ("body" in f and "body" not in o):
                self.fns[f["id"]] = f
        self.by_rec = {}
        for f in self.fns.values():
            if "rec" in f:
                self.by_rec.setdefault(f["rec"], []).append(f)
        self._cls = {}

    def where(self, f, line=None):
        return "include/%s:%d" % (self.files[f["file"]], line or f["line"])

    def t(self, i):
        return self.types[i] if i is not None and i >= 0 else {"s": "?", "k": "other"}

    def strip(self, i):
        """remove references and cv"""
        t = self.t(i)
        if t["k"] in ("lref", "rref"):
            return self.strip(t["p"])
        return i

    def isref(self, i):
        return self.t(i)["k"] in ("lref", "rref")

    def isint(self, i):
        return self.t(self.strip(i))["k"] in ("int", "bool")

    def rec_of(self, i):
        t = self.t(self.strip(i))
        return self.records.get(t.get("r"))

    def cls(self, i):
        i = self.strip(i)
        c = self._cls.get(i)
        if c is None:
            c = self._cls[i] = self._classify(i)
        return c

    def _classify(self, i):
        t = self.t(i)
        k = t["k"]
        if k in ("int", "float", "bool", "ptr", "void"):
            return k
        if k == "array":
            return "cont"
        if k == "rec":
            r = self.records.get(t.get("r"))
            if r is None:
                return "other"
            if r.get("lambda"):
                return "lambda"
            q = r["q"]
            n = q.split("::")[-1]
            if n in ("__normal_iterator", "_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator",
                     "_Rb_tree_const_iterator", "_Deque_iterator", "move_iterator", "back_insert_iterator", "_Bit_iterator", "_Bit_const_iterator",
                     "reverse_iterator"):
                return "iter"
            if q in ("std::shared_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__weak_ptr", "std::__shared_ptr_access"):
                return "sptr"
            if q == "std::unique_ptr":
                s = t["s"]
                return "uarr" if re.search(r"unique_ptr<[^<>]*\[\]", s) or "[]" in s.split(",")[0] else "sptr"
            if q in ("std::pair", "std::tuple"):
                return "agg"
            if q == "std::optional":
                return "opt"
            if q in ("std::vector", "std::array", "std::deque", "std::unordered_map", "std::unordered_set", "std::map",
                     "std::set", "std::priority_queue", "std::queue", "std::stack", "std::list", "std::initializer_list",
                     "std::basic_string"):
                return "cont"
            if q == "std::_Bit_reference":
                return "other"
            if r.get("mine"):
                return "obj"
            return "other"
        return "other"

    def fields(self, rec):
        """own and inherited data members, base first: [(name, type)]"""
        out = []
        for b in rec.get("bases", []):
            br = self.rec_of(b)
            if br:
                out += self.fields(br)
        for f in rec.get("fields", []):
            out.append((f["n"], f["t"]))
        return out

    def find(self, q, nparams=None, pred=None):
        return [f for f in self.fns.values() if f["q"] == q and "body" in f and (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
