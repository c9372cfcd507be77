"""C23: equality, order and hash look at the same members of both operands.

The bodies of comparison operators are evaluated over a finite abstraction: an
operand is a set of independent components (the member paths that the body
compares) and a component only has a relation to the same component of the
other operand (equal, less, greater). Helpers are followed. Whatever the
evaluator does not know makes the operator undecided."""
import itertools, re
from collections import defaultdict
import astq, rules_reflect
from astq import walk
from common import Result

UNITS = ["src/hstd/stdlib/Time.cpp", "src/haxorg/imm/ImmOrgHash.cpp", "src/haxorg/imm/ImmOrgBase.cpp", "src/haxorg/sem/SemOrgBaseSharedTypes.cpp"]
OPS = ("==", "!=", "<", "<=", ">", ">=")

# compared by identity: the listed members decide, the others follow from them
IDENTITY = {
    "hstd::ext::Label": "id",
    "org::imm::ImmAdapter": "id",
    "org::graph::MapNode": "id",
    "org::imm::ImmReflFieldId": "index",
    "hstd::generator::iterator": "done",
}


class Unk(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Obj:
    """a part of one operand"""

    def __init__(self, side, path=()):
        self.side, self.path = side, path

    def at(self, *p):
        return Obj(self.side, self.path + p)


class Fld:
    """what a reflection loop hands to its callback"""

    def __init__(self, name, loc_type, loc_name):
        self.name, self.loc_type, self.loc_name = name, loc_type, loc_name


FIELDS = (Fld("*1", False, False), Fld("*2", False, False), Fld("*loc", True, True), Fld("*3", True, False))


class Run:
    def __init__(self, byq, val, log=None):
        self.byq, self.val, self.log, self.depth = byq, val, log, 0
        self.fld = None

    def call(self, fn, this, args):
        self.depth += 1
        if self.depth > 6 or "body" not in fn:
            raise Unk
        env = {p["id"]: a for p, a in zip(fn["params"], args)}
        env["this"] = this
        try:
            self.block(fn["body"], env)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def block(self, n, env):
        for s in n["s"]:
            self.stmt(s, env)

    def stmt(self, n, env):
        k = n["k"]
        if k == "Block":
            self.block(n, env)
        elif k == "Return":
            raise Ret(self.ev(n["e"], env) if n.get("e") else None)
        elif k == "Decl":
            for v in n.get("vars", []):
                if "init" in v:
                    try:
                        env[v["id"]] = self.ev(v["init"], env)
                    except Unk:
                        env[v["id"]] = Unk
        elif k == "If":
            if n.get("init"):
                self.stmt(n["init"], env)
            c = self.truth(self.ev(n["c"], env))
            if c:
                self.stmt(n["then"], env)
            elif n.get("else"):
                self.stmt(n["else"], env)
        elif k == "Null":
            pass
        else:
            self.ev(n, env)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        raise Unk

    def leaf(self, o):
        return self.val(o)

    def compare(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "tuple":
            if len(a) != len(b):
                raise Unk
            rel = 0
            for x, y in zip(a[1:], b[1:]):
                if rel == 0:
                    rel = self.rel(op, x, y)
                elif self.log is not None:
                    self.rel(op, x, y)
        else:
            rel = self.rel(op, a, b)
        if op == "<=>":
            return ("rel", rel)
        return {"==": rel == 0, "!=": rel != 0, "<": rel < 0, "<=": rel <= 0, ">": rel > 0, ">=": rel >= 0}[op]

    def rel(self, op, a, b):
        if isinstance(a, tuple) and a and a[0] == "rel" and isinstance(b, int):
            return a[1]
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return (a > b) - (a < b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if not a.path and not b.path:
                raise Unk
            if self.log is not None:
                self.log.append((a, b, op))
            if a.side == b.side or a.path != b.path:
                if a.side == b.side and a.path == b.path:
                    return 0
                raise Unk
            x, y = self.leaf(a), self.leaf(b)
            return (x > y) - (x < y)
        raise Unk

    def ev(self, n, env):
        k = n["k"]
        if k in ("Cast", "Copy", "Paren", "Full", "Temp"):
            return self.ev(n["e"], env)
        if k == "Lit":
            if n.get("v") in ("true", "false"):
                return n["v"] == "true"
            if n.get("cv") is not None:
                return int(n["cv"])
            raise Unk
        if k == "This":
            return env["this"]
        if k == "Ref":
            v = env.get(n.get("id"), Unk)
            if v is Unk:
                if n.get("cv") is not None:
                    return int(n["cv"])
                raise Unk
            return v
        if k == "Un":
            if n["op"] in ("&", "*"):
                return self.ev(n["e"], env)
            if n["op"] == "!":
                return not self.truth(self.ev(n["e"], env))
            raise Unk
        if k in ("Member", "DepMember"):
            b = self.ev(n["b"], env) if n.get("b") else env["this"]
            if isinstance(b, Fld):
                return ("fldname", b) if n["name"] == "name" else ("fldptr", b)
            if isinstance(b, Obj):
                return b.at(n["name"])
            raise Unk
        if k == "DepRef" and n.get("name") == "is_same_v" and self.fld is not None:
            return self.fld.loc_type if any("SourceLoc" in t for t in n.get("targs", [])) else False
        if k == "Bin":
            return self.binary(n["op"], n["a"], n["b"], env)
        if k == "Cond":
            return self.ev(n["a"] if self.truth(self.ev(n["c"], env)) else n["b"], env)
        if k == "OpCall":
            op, a = n["op"], n["a"]
            if op in OPS + ("<=>",) and len(a) == 2:
                return self.binary(op, a[0], a[1], env)
            if op in ("->", "*") and len(a) == 1:
                b = self.ev(a[0], env)
                if isinstance(b, Obj):
                    return b
            if op == "!" and len(a) == 1:
                return not self.truth(self.ev(a[0], env))
            raise Unk
        if k == "MCall" or k == "Call":
            return self.invoke(n, env)
        if k in ("Ctor", "InitList") and len(n.get("a", [])) == 1:
            return self.ev(n["a"][0], env)
        if k == "Lambda":
            return ("lambda", n, env)
        raise Unk

    def binary(self, op, a, b, env):
        if op == "&&":
            return self.truth(self.ev(a, env)) and self.truth(self.ev(b, env))
        if op == "||":
            return self.truth(self.ev(a, env)) or self.truth(self.ev(b, env))
        if op in ("=", "&=", "|="):
            if a["k"] != "Ref":
                raise Unk
            v = self.ev(b, env)
            if op != "=":
                o = self.truth(self.ev(a, env))
                v = (o and self.truth(v)) if op == "&=" else (o or self.truth(v))
            e = env
            while "up" in e and a["id"] not in e:
                e = e["up"]
            e[a["id"]] = v
            return v
        if op in ("&", "|"):
            x, y = self.truth(self.ev(a, env)), self.truth(self.ev(b, env))
            return (x and y) if op == "&" else (x or y)
        if op in ("->*", ".*"):
            o, p = self.ev(a, env), self.ev(b, env)
            if isinstance(o, Obj) and isinstance(p, tuple) and p[0] == "fldptr":
                return o.at(p[1].name)
            raise Unk
        if op in OPS + ("<=>",):
            # the name of a reflected member
            try:
                x = self.ev(a, env)
            except Unk:
                x = Unk
            try:
                y = self.ev(b, env)
            except Unk:
                y = Unk
            for v in (x, y):
                if isinstance(v, tuple) and v[0] == "fldname":
                    return v[1].loc_name == (op == "==")
            if x is Unk or y is Unk:
                raise Unk
            return self.compare(op, x, y)
        raise Unk

    def invoke(self, n, env):
        nm = n.get("fn", "") or n.get("ce", {}).get("name", "")
        last = nm.rsplit("::", 1)[-1]
        if last in ("tie", "make_tuple", "forward_as_tuple", "make_pair") and n["k"] == "Call":
            return ("tuple", *[self.ev(a, env) for a in n["a"]])
        if last == "itemwise_less_than" and len(n.get("a", [])) == 3:
            return self.compare("<", self.ev(n["a"][0], env), self.ev(n["a"][1], env))
        if last == "lessThan" and n["k"] == "MCall" and n.get("a"):
            return self.compare("<", self.ev(n["obj"], env), self.ev(n["a"][0], env))
        if last.startswith("for_each_field") and n.get("a"):
            lam = self.ev(n["a"][-1], env)
            if not (isinstance(lam, tuple) and lam[0] == "lambda"):
                raise Unk
            node = lam[1]
            for f in FIELDS:
                e = Chain(lam[2])
                e[node["params"][0]["id"]] = f
                self.fld = f
                try:
                    self.block(node["body"], e)
                except Ret:
                    pass
            self.fld = None
            return None
        if n["k"] == "MCall":
            o = self.ev(n["obj"], env) if n.get("obj") else env["this"]
            args = n.get("a", [])
            if last in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=") and len(args) == 1:
                return self.compare(last[8:], o, self.ev(args[0], env))
            if not isinstance(o, Obj):
                raise Unk
            fns = [g for g in self.byq.get(nm, []) if len(g["params"]) == len(args) and not g.get("virtual")]
            if not args and (n.get("virt") or not o.path):
                # an accessor is a component of its own
                if len(fns) == 1 and not n.get("virt"):
                    try:
                        return self.call(fns[0], o, [])
                    except Unk:
                        pass
                return o.at(last + "()")
            if not args:
                return o.at(last + "()")
            if len(fns) == 1 and not n.get("virt"):
                return self.call(fns[0], o, [self.ev(a, env) for a in args])
            raise Unk
        fns = [g for g in self.byq.get(nm, []) if len(g["params"]) == len(n.get("a", []))]
        if len(fns) == 1:
            return self.call(fns[0], env.get("this"), [self.ev(a, env) for a in n["a"]])
        raise Unk


class Chain(dict):
    """environment of a callback: writes to captured variables go outwards"""

    def __init__(self, up):
        super().__init__()
        self["up"] = up
        self["this"] = up.get("this")

    def get(self, k, d=None):
        return self[k] if k in self else dict.get(self, "up").get(k, d)


def reflected(fn):
    """callbacks of reflection loops"""
    return [a for n in walk(fn["body"]) if n["k"] == "Call" and ((n.get("fn") or n.get("ce", {}).get("name", "")).rsplit("::", 1)[-1]).startswith("for_each_field")
            for a in n.get("a", []) if a["k"] == "Lambda"]


def used(byq, lam, f):
    """does the callback touch the member of the object for this kind of member?"""
    run = Run(byq, lambda o: 0)
    run.fld = f
    env = {lam["params"][0]["id"]: f, "this": None}

    def go(n):
        if n["k"] == "If":
            if any(x["k"] == "Bin" and x["op"] in (".*", "->*") for x in walk(n["c"])):
                return True
            try:
                c = run.truth(run.ev(n["c"], env))
            except Unk:
                c = None
            return (c is not False and go(n["then"])) or (c is not True and bool(n.get("else")) and go(n["else"]))
        if n["k"] == "Block":
            return any(go(x) for x in n["s"])
        return any(x["k"] == "Bin" and x["op"] in (".*", "->*") for x in walk(n))

    return go(lam["body"])


def evaluate(byq, fn, member, val, log=None):
    a, b = Obj("L"), Obj("R")
    r = Run(byq, val, log)
    v = r.call(fn, a, [b]) if member else r.call(fn, None, [a, b])
    return r.truth(v)


def cls_of(fn):
    if fn.get("clsq") and len(fn["params"]) == 1:
        return fn["clsq"], True
    if not fn.get("clsq") and len(fn["params"]) == 2:
        ts = {re.sub(r"\bconst\b|&", "", p["ct"]).strip() for p in fn["params"]}
        if len(ts) == 1:
            return ts.pop(), False
    if fn.get("clsq") and len(fn["params"]) == 2:
        return fn["clsq"], False
    return None, None


def check(tier):
    res = Result("C23")
    res.level = "other"
    umb = rules_reflect.umbrella()
    units = astq.facts([umb] + UNITS)
    recs, byq, seen, declared = {}, defaultdict(list), set(), {}
    for u, f in units.items():
        for d in f["decls"]:
            if d["d"] == "rec" and "fields" in d:
                if d["qual"] not in recs or len(d["fields"]) > len(recs[d["qual"]]["fields"]):
                    recs[d["qual"]] = d
            elif d["d"] == "fn":
                if d["name"] == "operator==" and d.get("clsq", "").startswith(("org::imm::", "org::sem::")):
                    declared.setdefault(d["qual"], d)
                k = (d["file"], d["l"], d["qual"], d["sig"])
                if "body" in d and k not in seen:
                    seen.add(k)
                    byq[d["qual"]].append(d)
    cnt = defaultdict(int)
    eqf = {}

    def bad(d, l, rule, what, key):
        res.violation(key, f"{d['file']}:{l or d['l']} ({d['qual'][:100]})", rule, what)

    def show(p):
        return ".".join(p)

    ops = defaultdict(dict)
    for q, ds in byq.items():
        for d in ds:
            m = re.fullmatch(r"operator(==|!=|<|<=|>|>=)", d["name"])
            if not m or re.sub(r"\bconst\b", "", d.get("cret", "")).strip() != "bool":
                continue
            c, member = cls_of(d)
            if c is None or c not in recs and "<" not in c:
                continue
            cnt["operators"] += 1
            # which components are compared?
            comps, odd = set(), False
            for base in (0, 1):
                log = []
                try:
                    evaluate(byq, d, member, lambda o, base=base: 0 if base == 0 or o.side == "L" else 1, log)
                except Unk:
                    odd = True
                except (KeyError, TypeError, RecursionError):
                    odd = True
                for a, b, op in log:
                    if not a.path or not b.path:
                        continue
                    if a.side == b.side:
                        bad(d, None, "both-operands", f"{c}: {show(a.path)} of {'the left' if a.side == 'L' else 'the right'} operand is compared with {show(b.path)} of the same operand", f"self {q} {show(a.path)}")
                    elif a.path != b.path:
                        bad(d, None, "same-member", f"{c}: {show(a.path)} is compared with {show(b.path)} of the other operand", f"cross {q} {show(a.path)}")
                    else:
                        comps.add(a.path)
            if odd or not comps or len(comps) > 8:
                continue
            cnt["evaluated"] += 1
            comps = sorted(comps)
            op = m[1]
            if op in ("==", "!="):
                content = [p for p in comps if p[-1] != "*loc"]
                try:
                    for j, diff in enumerate([None] + content):
                        for hi in ("L", "R"):
                            v = evaluate(byq, d, member, lambda o: 1 if o.path == diff and o.side == hi else 0)
                            if (v == (op == "==")) != (diff is None):
                                what = f"operands that differ in {show(diff)} only" if diff else "equal operands"
                                bad(d, None, "equality-means-equal-members", f"{c}: operator{op} answers {str(v).lower()} for {what}", f"value {q} {show(diff or ())}")
                                raise Unk
                except Unk:
                    pass
                roots = {p[0] for p in comps}
                if "*1" in roots:
                    for w in ("*2", "*3"):
                        if w not in roots:
                            bad(d, None, "every-member-compared", f"{c}: not every reflected member is compared", f"refl {q}")
                    eqf[c] = None
                else:
                    eqf[c] = roots
                    fs = {x["name"] for x in recs.get(c, {}).get("fields", []) if not x.get("static")}
                    if fs and roots <= fs and op == "==":
                        cnt["full"] += 1
                        miss = fs - roots
                        known = set(IDENTITY.get(c, "").split())
                        # one of them under a new name
                        same = c not in IDENTITY and any(k not in recs and roots == set(v.split()) for k, v in IDENTITY.items())
                        if miss and not (known and roots >= known) and not same:
                            bad(d, None, "every-member-compared", f"{c}: {', '.join(sorted(miss))} is not compared", f"missing {c} {sorted(miss)[0]}")
            elif len(comps) <= 3:
                vals = list(itertools.product((0, 1, 2) if len(comps) < 3 else (0, 1), repeat=len(comps)))
                tab = {}
                try:
                    for x in vals:
                        for y in vals:
                            mx, my = dict(zip(comps, x)), dict(zip(comps, y))
                            tab[x, y] = evaluate(byq, d, member, lambda o: (mx if o.side == "L" else my)[o.path])
                except (Unk, KeyError):
                    continue
                cnt["orders"] += 1
                strict = op in ("<", ">")
                for x in vals:
                    if tab[x, x] == strict:
                        bad(d, None, "order", f"{c}: operator{op} answers {str(strict).lower()} for equal operands", f"irreflexive {q}")
                        break
                less = {k: (v if strict else not tab[k[1], k[0]]) for k, v in tab.items()}
                if any(less[x, y] and less[y, x] for x in vals for y in vals):
                    bad(d, None, "order", f"{c}: operator{op} puts two values before each other", f"asymmetric {q}")
                elif any(less[x, y] and less[y, z] and not less[x, z] for x in vals for y in vals for z in vals):
                    bad(d, None, "order", f"{c}: operator{op} is not transitive", f"transitive {q}")
                elif any(not less[x, y] and not less[y, x] and not less[y, z] and not less[z, y] and (less[x, z] or less[z, x]) for x in vals for y in vals for z in vals):
                    bad(d, None, "order", f"{c}: values that operator{op} cannot tell apart do not form groups", f"weak {q}")
                ops[c, tuple(comps)][op] = ({k: (v if op in ("<", "<=") else tab[k[1], k[0]]) for k, v in tab.items()}, d, strict)
    for (c, comps), t in ops.items():
        if len(t) > 1:
            base = None
            for op, (tab, d, strict) in sorted(t.items()):
                # "less than" view of each operator
                less = tab if strict else {k: not tab[k[1], k[0]] for k in tab}
                if base is None:
                    base = (op, less)
                elif less != base[1]:
                    bad(d, None, "order", f"{c}: operator{op} and operator{base[0]} order values differently", f"agree {c} {op}")
    # ---- declared equality has a definition
    for q, d in sorted(declared.items()):
        cnt["declared"] += 1
        r = recs.get(d.get("clsq"))
        if q not in byq and not d.get("defaulted") and r and not d.get("deleted") and "<" not in q:
            if d["file"].endswith(("ImmOrgTypes.hpp", "SemOrgSharedTypes.hpp")):
                bad(d, None, "equality-defined", f"{d['clsq']}: operator== is declared and has no definition", f"undefined {q}")
    # ---- equal values have equal hashes
    for q, ds in byq.items():
        m = re.match(r"std::hash<(.*)>::operator\(\)$", q)
        if not m:
            continue
        for d in ds:
            if len(d["params"]) != 1:
                continue
            c = re.sub(r"\bconst\b|&", "", d["params"][0]["ct"]).strip()
            if c.split("<")[0] not in {k.split("<")[0] for k in eqf} and c not in eqf:
                continue
            cnt["hashes"] += 1
            pid = d["params"][0]["id"]
            roots = set()
            for n in walk(d["body"]):
                if n["k"] in ("Member", "DepMember") and n.get("b"):
                    b = n["b"]
                    while b["k"] in ("Cast", "Copy", "Paren"):
                        b = b["e"]
                    if b["k"] == "Ref" and b.get("id") == pid:
                        roots.add(n["name"])
            e = eqf.get(c, eqf.get(c.split("<")[0]))
            fs = {x["name"] for x in recs.get(c, {}).get("fields", [])}
            if e is not None and roots and fs:
                extra = (roots & fs) - e
                if extra:
                    bad(d, None, "equal-values-equal-hashes", f"{c}: the hash depends on {', '.join(sorted(extra))}, which equality ignores", f"hash {c} {sorted(extra)[0]}")
    # ---- reflected hashes use no member that the reflected equality skips
    compared = None
    for q, ds in byq.items():
        for d in ds:
            lams = reflected(d)
            if not lams:
                continue
            names = {f.name for f in FIELDS if used(byq, lams[0], f)} if len(lams) == 1 else None
            if names is None:
                continue
            if re.search(r"eq", d["name"], re.I) and len(d["params"]) == 2 and d["file"].endswith("ImmOrgHash.cpp"):
                compared = names
    for q, ds in byq.items():
        for d in ds:
            lams = reflected(d)
            if compared is not None and len(lams) == 1 and re.search("hash", d["name"], re.I) and len(d["params"]) == 1 and d["file"].endswith("ImmOrgHash.cpp"):
                cnt["reflected hashes"] += 1
                extra = {f.name for f in FIELDS if used(byq, lams[0], f)} - compared
                if "*loc" in extra:
                    bad(d, None, "equal-values-equal-hashes", "the hash of a node depends on its source location, which equality ignores", f"hashloc {q}")
                elif extra:
                    bad(d, None, "equal-values-equal-hashes", "the hash of a node depends on members that equality ignores", f"hashextra {q}")
    res.coverage = dict(analysed=dict(cnt), explanation="every comparison operator and hash of the reflected headers and the defining units; operators are evaluated over independent components "
                        "of the two operands: all equal, each one different, and for orders all combinations of up to three values")
    if cnt["operators"] < 100 or cnt["evaluated"] < 80:
        res.violation("anchor", "src", "anchor-present", f"only {dict(cnt)} found")
    res.extra["summary"] = ", ".join(f"{v} {k}" for k, v in cnt.items())
    return astq.settle(res, units)
