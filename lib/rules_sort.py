"""C24: an order handed to a sort, a search for an extreme or a queue is a strict
weak order.

The comparators (lambdas with two parameters of one type, and the call operators
of comparator classes) are evaluated over a finite abstraction. Every expression
over one of the two elements is a component of that element; elements are all
assignments of small numbers to the components, and captured conditions are tried
both ways. What the evaluator does not know makes the comparator undecided."""
import itertools, json, re
from collections import defaultdict
import astq, rules_reflect
from astq import kids, walk
from common import Result
from rules_eq import Obj, Ret, Run, Unk

UNITS = ["src/hstd/stdlib/Json.cpp", "src/hstd/stdlib/RangeSegmentation.cpp", "src/hstd/ext/graph/base/graph_hierarchy.cpp", "src/hstd/ext/textlayouter.cpp",
         "src/hstd/ext/error_write.cpp", "src/hstd/ext/astdiff/astdiff.cpp", "src/haxorg/sem/SemOrgFormat.cpp",
         "src/haxorg/imm/ImmOrgStore.cpp"]
SORTS = {"sort", "stable_sort", "partial_sort", "nth_element", "sorted", "min_element", "max_element", "minmax_element", "is_sorted", "make_heap", "push_heap",
         "pop_heap", "sort_heap", "min", "max", "minmax"}
FUNCTOR = re.compile(r"less|greater|compar|cmp|order", re.I)


def norm(n, sides):
    """an expression up to names of the element it reads and source positions"""
    if isinstance(n, dict):
        if n.get("k") == "Ref" and n.get("id") in sides:
            return "*"
        if n.get("k") in ("Cast", "Copy", "Paren", "Full", "Temp") and isinstance(n.get("e"), dict):
            return norm(n["e"], sides)
        return {k: norm(v, sides) for k, v in sorted(n.items()) if k not in ("l", "c", "t", "ct", "file", "col", "id") or k == "id" and n.get("k") == "Ref" or k == "c" and isinstance(v, dict)}
    if isinstance(n, list):
        return [norm(x, sides) for x in n]
    return n


class Cmp(Run):
    def __init__(self, byq, val, lams):
        super().__init__(byq, val)
        self.lams = lams

    def mentioned(self, n, env):
        out = {}
        for x in walk(n):
            if x["k"] == "Ref":
                v = env.get(x.get("id"))
                if isinstance(v, Obj):
                    out[x["id"]] = v
        return out

    def ev(self, n, env):
        try:
            v = super().ev(n, env)
            if v is not Unk:
                return v
        except (Unk, KeyError, TypeError):
            pass
        if n["k"] in ("OpCall", "Call") and (n["k"] == "Call" or n.get("op") == "()"):
            lam, args = self.local(n)
            if lam is not None and len(lam["params"]) == len(args):
                e = dict(env)
                for p, a in zip(lam["params"], args):
                    e[p["id"]] = self.ev(a, env)
                self.depth += 1
                try:
                    if self.depth > 6:
                        raise Unk
                    self.block(lam["body"], e)
                except Ret as r:
                    return r.v
                finally:
                    self.depth -= 1
        if any(x["k"] in ("Lambda", "Throw", "New") or x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") for x in walk(n)):
            raise Unk
        if isinstance(env.get("this"), Obj) and env["this"].side != "C" and any(x["k"] == "This" or x["k"] == "Member" and not x.get("b") for x in walk(n)):
            raise Unk
        m = self.mentioned(n, env)
        sides = {v.side for v in m.values()}
        if len(sides) > 1:
            raise Unk
        text = json.dumps(norm(n, {i for i, v in m.items() if not v.path}), sort_keys=True)
        for i, v in m.items():
            if v.path:
                text = text.replace(json.dumps(i), json.dumps("/".join(v.path)))
        return Obj(sides.pop() if sides else "C", (text,))

    def invoke(self, n, env):
        if n["k"] == "MCall" and not n.get("a") and n.get("obj"):
            o = self.ev(n["obj"], env)
            if isinstance(o, Obj):
                return o.at((n.get("fn") or "").rsplit("::", 1)[-1] + "()")
        return super().invoke(n, env)

    def truth(self, v):
        if isinstance(v, Obj):
            return bool(self.val(v))
        return super().truth(v)

    def local(self, n):
        if n["k"] == "OpCall":
            f, args = n["a"][0], n["a"][1:]
        else:
            f, args = n.get("ce"), n.get("a", [])
        while isinstance(f, dict) and f.get("k") in ("Cast", "Copy", "Paren", "Full", "Temp"):
            f = f["e"]
        return (self.lams.get(f.get("id")) if isinstance(f, dict) else None), args

    def rel(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            x = self.val(a if a.path else a.at("itself")) if isinstance(a, Obj) else a
            y = self.val(b if b.path else b.at("itself")) if isinstance(b, Obj) else b
            if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
                if not (isinstance(a, Obj) and isinstance(b, Obj)):
                    raise Unk
                return (x > y) - (x < y)
            raise Unk
        return super().rel(op, a, b)


def table(byq, params, body, this, lams):
    """(elements, {(x, y): answer} per captured configuration)"""
    comps, conf = [], []

    def once(x, y, c):
        def val(o):
            if o.side == "C":
                if o.path not in conf:
                    conf.append(o.path)
                return c.get(o.path, 0)
            if o.path not in comps:
                comps.append(o.path)
            return (x if o.side == "L" else y).get(o.path, 0)

        run = Cmp(byq, val, lams)
        env = {params[0]["id"]: Obj("L"), params[1]["id"]: Obj("R"), "this": this}
        try:
            run.block(body, env)
        except Ret as r:
            return run.truth(r.v)
        raise Unk

    while True:
        n = len(comps), len(conf)
        if n[0] > 4 or n[1] > 3:
            raise Unk
        nums = (0, 1, 2) if n[0] < 3 else (0, 1)
        elems = [dict(zip(comps, v)) for v in itertools.product(nums, repeat=n[0])]
        out = {}
        for cv in itertools.product((0, 1), repeat=n[1]):
            c = dict(zip(conf, cv))
            out[cv] = {(i, j): once(x, y, c) for i, x in enumerate(elems) for j, y in enumerate(elems)}
            if (len(comps), len(conf)) != n:
                break
        if (len(comps), len(conf)) == n:
            return comps, len(elems), out


def strict(n, tab):
    r = range(n)
    for i in r:
        if tab[i, i]:
            return "puts an element before itself"
    for i in r:
        for j in r:
            if tab[i, j] and tab[j, i]:
                return "puts two elements before each other"
    for i in r:
        for j in r:
            for k in r:
                if tab[i, j] and tab[j, k] and not tab[i, k]:
                    return "is not transitive"
                if not (tab[i, j] or tab[j, i] or tab[j, k] or tab[k, j]) and (tab[i, k] or tab[k, i]):
                    return "does not group the elements it cannot tell apart"
    if not any(tab.values()):
        return "never puts an element before another"
    return None


def plain(t):
    return re.sub(r"auto:\d+|type-parameter-\d+-\d+", "auto", re.sub(r"\bconst\b|&|\s", "", t or ""))


def check(tier):
    res = Result("C24")
    res.level = "other"
    units = astq.facts([rules_reflect.umbrella()] + UNITS)
    byq, seen, fns = defaultdict(list), set(), []
    for u, f in units.items():
        for d in f["decls"]:
            if d["d"] != "fn" or "body" not in d:
                continue
            k = (d["file"], d["l"], d["qual"], d["sig"])
            if k not in seen:
                seen.add(k)
                byq[d["qual"]].append(d)
                fns.append(d)
    cnt, done, where = defaultdict(int), set(), []

    def judge(d, line, params, body, this, lams, what):
        key = (d["file"], line)
        if key in done:
            return
        done.add(key)
        cnt["comparators"] += 1
        try:
            comps, n, tabs = table(byq, params, body, this, lams)
        except (Unk, RecursionError, KeyError, TypeError, AttributeError):
            cnt["not understood"] += 1
            res.notes.append(f"not understood: {d['file']}:{line}")
            return
        cnt["decided"] += 1
        where.append(f"{d['file']}:{line}")
        for t in tabs.values():
            w = strict(n, t)
            if w:
                res.violation(f"order {d['qual']}", f"{d['file']}:{line} ({d['qual'][:100]})", "strict-weak-order", f"the order given to {what} {w}")
                return

    for d in fns:
        lams = {}
        for n in walk(d["body"]):
            if n["k"] == "Decl":
                for v in n.get("vars", []):
                    i = v.get("init")
                    while isinstance(i, dict) and i.get("k") in ("Cast", "Copy", "Paren", "Full", "Temp"):
                        i = i["e"]
                    if isinstance(i, dict) and i.get("k") == "Lambda":
                        lams[v["id"]] = i
        for n in walk(d["body"]):
            if n["k"] not in ("Call", "OpCall", "MCall", "DepCall"):
                continue
            name = (n.get("fn") or (n.get("ce") or {}).get("name") or "")
            if n["k"] == "OpCall" and n.get("op") == "()":
                first = n["a"][0]
                while first.get("k") in ("Cast", "Copy", "Paren", "Full", "Temp"):
                    first = first["e"]
                name = first.get("name", "")
            name = name.rsplit("::", 1)[-1]
            if name not in SORTS:
                continue
            for a in n.get("a", []):
                while a.get("k") in ("Cast", "Copy", "Paren", "Full", "Temp") or a.get("k") == "Ctor" and len(a.get("a", [])) == 1:
                    a = a["a"][0] if a["k"] == "Ctor" else a["e"]
                if a.get("k") == "Ref" and a.get("id") in lams:
                    a = lams[a["id"]]
                if a.get("k") == "Lambda" and len(a.get("params", [])) == 2 and plain(a["params"][0].get("ct", a["params"][0].get("t"))) == plain(a["params"][1].get("ct", a["params"][1].get("t"))):
                    judge(d, a.get("l", n.get("l", d["l"])), a["params"], a["body"], Obj("C", ("this",)) if d.get("clsq") else None, lams, name)
        if d["name"] == "operator()" and len(d["params"]) == 2 and FUNCTOR.search(d.get("clsq", "").rsplit("::", 1)[-1]) and plain(d["params"][0]["ct"]) == plain(d["params"][1]["ct"]) and plain(d.get("cret")) == "bool":
            judge(d, d["l"], d["params"], d["body"], Obj("C", ("this",)), lams, d["clsq"])
    res.coverage = dict(analysed=dict(cnt), decided=where, explanation="each comparator is evaluated over all pairs and triples of abstract elements that assign up to three values to each expression the comparator reads from an element")
    if cnt["decided"] < 8:
        res.violation("anchor", "src", "anchor-present", f"only {dict(cnt)} found")
    res.extra["summary"] = ", ".join(f"{v} {k}" for k, v in cnt.items())
    return astq.settle(res, units)
