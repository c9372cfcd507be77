"""C10: exporters visit every field of every node under its own name and lose no value."""
import re
from collections import defaultdict
import astq, fieldflow
from astq import walk
from common import Result
from rules_imm import always_used, fields_of, name_of, own, strip

UNITS = ["src/haxorg/exporters/" + u for u in ("ExporterJson.cpp", "exporteryaml.cpp", "ExporterUltraplain.cpp", "exportertree.cpp", "exportersimplesexpr.cpp")]
BASE = "org::algo::Exporter"
DERIVED = ("ExporterJson", "ExporterYaml", "ExporterUltraplain", "ExporterTree", "ExporterSimpleSExpr")
# alternatives of discriminated values are not exported this way
# values that an exporter deliberately ignores (class, function, what)
IGNORED = [(BASE, "visit", r"UserTime|OrgJson|SourceLoc|SourceFileId|float"), (".*Ultraplain", "visit", r"T const|const T"), (".*Ultraplain", "visitSpace", ""),
           (".*", "visitField", r"UnorderedMap<int"), (".*Tree", "visit", r"UnorderedMap<K"), (".*", "newRes", ""), (BASE, "(push|pop)Visit|visit(Start|End|DispatchHook)", "")]


# text parts of nodes in the order of the document
PLAIN = {"visitTimeRange": ("from", "to"), "visitSubtree": ("level", "title", "subnodes"), "visitLink": ("description", "target"),
         **{"visit" + k: ("text",) for k in ("Word", "Punctuation", "BigIdent", "Placeholder", "RawText", "Newline")}}


def preorder(n):
    yield n
    for c in astq.kids(n):
        yield from preorder(c)


def key(n):
    """access path of an expression as text, None when it is not a plain path"""
    n = strip(n)
    if n["k"] == "Ref":
        return str(n.get("id"))
    if n["k"] == "This":
        return "this"
    if n["k"] in ("Member", "DepMember") and isinstance(n.get("b"), dict):
        b = key(n["b"])
        return b and b + "." + n["name"]
    if n["k"] == "OpCall" and n.get("op") in ("->", "*") and len(n["a"]) == 1:
        return key(n["a"][0])
    if n["k"] == "MCall" and name_of(n) in ("operator->", "get", "operator*"):
        return key(n["obj"])
    return None


def presence_of(c):
    """(path, present when the condition holds) of a presence test"""
    pol = True
    while c["k"] in ("Cast", "Copy") or c["k"] == "Un" and c["op"] == "!" or c["k"] == "OpCall" and c.get("op") == "!":
        if c["k"] in ("Un", "OpCall"):
            pol = not pol
        c = c["e"] if "e" in c else c["a"][0]
    if c["k"] in ("MCall", "Call"):
        nm = name_of(c)
        o = c.get("obj") or (c["ce"].get("b") if isinstance(c.get("ce"), dict) else None)
        if isinstance(o, dict) and nm in ("has_value", "operator bool"):
            return key(o), pol
        if isinstance(o, dict) and nm in ("empty", "isNil"):
            return key(o), not pol
        return None
    if re.search("optional<|Opt<", c.get("t", "")):
        return key(c), pol
    return None


def absent_content(d, cnt, bad):
    """branches for an absent or empty value do not use its content"""
    for n in walk(d["body"]):
        if n["k"] != "If" or not isinstance(n.get("c"), dict):
            continue
        p = presence_of(n["c"])
        if not p or not p[0]:
            continue
        cnt["presence tests"] += 1
        branch = n.get("else") if p[1] else n["then"]
        if not isinstance(branch, dict):
            continue
        for x in walk(branch):
            e = None
            if x["k"] == "RangeFor" and isinstance(x.get("range"), dict):
                e = x["range"]
            elif x["k"] in ("Un", "OpCall") and x.get("op") in ("*", "->"):
                e = x["e"] if "e" in x else x["a"][0]
            elif x["k"] in ("MCall", "Call") and name_of(x) in ("value", "at", "front", "back"):
                e = x.get("obj") or (x["ce"].get("b") if isinstance(x.get("ce"), dict) else None)
            if isinstance(e, dict) and key_raw(e) == p[0]:
                bad(d, x.get("l"), "absent-value-not-read", f"{d['name']}: the content of an absent or empty value is used", f"absentbranch {d['qual']} {d['params'][-1]['ct']}")
                break


def key_raw(n):
    n2 = n
    while n2["k"] in ("Cast", "Copy"):
        n2 = n2["e"]
    return key(n2)


class Cond:
    """three-valued conditions: `present` tells whether the value holds something, flags that skip output are off"""

    def __init__(self, pid, present, flags=False):
        self.pid, self.present, self.flags = pid, present, flags

    def mine(self, n):
        n = strip(n)
        return n["k"] == "Ref" and n.get("id") == self.pid

    def ev(self, n):
        k = n["k"]
        if k in ("Cast", "Copy"):
            return self.ev(n["e"])
        if k == "Ctor" and len(n.get("a", [])) == 1:
            return self.ev(n["a"][0])
        if k == "Un" and n["op"] == "!":
            v = self.ev(n["e"])
            return None if v is None else not v
        if k == "OpCall" and n.get("op") == "!" and len(n["a"]) == 1:
            v = self.ev(n["a"][0])
            return None if v is None else not v
        if k == "Bin" and n["op"] in ("&&", "||"):
            a, b = self.ev(n["a"]), self.ev(n["b"])
            if n["op"] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if k in ("Bin", "OpCall") and n.get("op") in ("==", "!="):
            a, b = (n["a"], n["b"]) if k == "Bin" else n["a"]
            for x, y in ((a, b), (b, a)):
                if self.mine(x) and (strip(y).get("cv") in ("0", "false") or strip(y).get("v") in ("0", "false", False, 0)):
                    return self.present == (n["op"] == "!=")
        if k in ("Member", "DepMember") and re.match(r"skip[A-Z]", n["name"]):
            return self.flags
        if k == "Ref" and n.get("id") == self.pid:
            return self.present
        if k == "Lit" and n.get("cv") in ("true", "false", "0", "1"):
            return n["cv"] in ("true", "1")
        if k in ("MCall", "Call"):
            o = n.get("obj") or (n["ce"].get("b") if isinstance(n.get("ce"), dict) else None)
            nm = name_of(n)
            if isinstance(o, dict) and self.mine(o):
                if nm in ("has_value", "operator bool"):
                    return self.present
                if nm in ("empty", "isNil", "IsNull", "is_null"):
                    return not self.present
            if nm in ("skipAsEmpty",) and any(self.mine(a) for a in n.get("a", [])):
                return not self.present if self.flags else False
            if nm == "skipAsTooNested":
                return False
        return None


def uses_value(body, pid, cond, typed=False):
    """does some path (under the condition) do something with the value? True/False/None=maybe"""
    ids = {pid}

    def uses(n):
        if n["k"] in ("Call", "MCall") and re.match(r"newRes$|trace|visitStart|visitEnd|writeSkip|skipAs|LOGIC", name_of(n)):
            return False
        return n["k"] == "Ref" and n.get("id") in ids or any(uses(c) for c in astq.kids(n))

    def go(n):
        """(used, left): used True/False/None, left: control left the function"""
        k = n["k"]
        if k == "Block":
            got = False
            for s in n["s"]:
                u, left = go(s)
                got = True if u else got if u is False else None if got is False else got
                if left:
                    return got, True
                if left is None and got is False:
                    got = False
            return got, False
        if k == "Decl":
            for d in fieldflow.decls(n):
                if isinstance(d.get("init"), dict) and uses(d["init"]):
                    ids.add(d["id"])
            return False, False
        if k == "If":
            v = cond.ev(n["c"]) if isinstance(n.get("c"), dict) else None
            if v is not None:
                b = n["then"] if v else n.get("else")
                return go(b) if isinstance(b, dict) else (False, False)
            a, la = go(n["then"])
            b, lb = go(n["else"]) if isinstance(n.get("else"), dict) else (False, False)
            u = a if a == b else None
            if a or b:
                u = True if a and b else None
            # alternatives for types: each has to use the value
            if typed and a != b and isinstance(n.get("else"), dict) and n.get("cx"):
                u = False if a is False or b is False else u
            return u, la and lb
        if k == "Return":
            return isinstance(n.get("e"), dict) and uses(n["e"]), True
        if k == "Throw":
            return None, True
        if k in ("Switch", "Try", "For", "While", "Do"):
            return (True if uses(n) else False), False
        return uses(n), False

    return go(body)[0]


def deref_when_absent(fn, pid, cond):
    """first expression that takes the content of an absent value on a path that is certainly taken"""
    def content(n):
        for x in own(n):
            if x["k"] in ("Un", "OpCall") and x.get("op") == "*" and cond.mine(x["e"] if "e" in x else x["a"][0]):
                return x
            if x["k"] in ("MCall", "Call"):
                o = x.get("obj") or (x["ce"].get("b") if isinstance(x.get("ce"), dict) else None)
                if isinstance(o, dict) and cond.mine(o) and name_of(x) == "value":
                    return x
        return None

    def go(n):
        if n["k"] == "Block":
            for s in n["s"]:
                r = go(s)
                if r:
                    return r
            return None
        if n["k"] == "If":
            v = cond.ev(n["c"])
            if v is None:
                return "stop"
            b = n["then"] if v else n.get("else")
            return go(b) if isinstance(b, dict) else None
        if n["k"] == "Return":
            return (content(n["e"]) if isinstance(n.get("e"), dict) else None) or "stop"
        if n["k"] in ("For", "While", "RangeFor", "Switch", "Try"):
            return "stop"
        return content(n)

    r = go(fn["body"])
    return r if isinstance(r, dict) else None


def check(tier):
    res = Result("C10")
    res.level = "other"
    units = astq.facts(UNITS)
    recs, fns = {}, {}
    for u, f in units.items():
        for d in f["decls"]:
            if d["d"] == "rec":
                recs.setdefault(d["qual"], d)
            elif d["d"] == "fn" and d.get("def") and "body" in d:
                fns.setdefault((d["file"], d["l"], d["qual"]), d)
    cnt = defaultdict(int)
    samples = []

    def bad(fn, l, rule, what, key):
        res.violation(key, f"{fn['file']}:{l or fn['l']} ({fn.get('qual', '')[:120]})", rule, what)

    byname = defaultdict(list)
    for d in fns.values():
        byname[d["qual"]].append(d)
    for d in fns.values():
        q = d.get("clsq") or ""
        short = q.rsplit("::", 1)[-1]
        if q == BASE and len(d["params"]) == 2 and d["name"].startswith("visit"):
            t = d["params"][1]["ct"]
            m = re.match(r"(?:const )?org::sem::SemId<(org::sem::[\w:]+)>(?: &)?$", t)
            t = m[1] if m else re.sub(r"^const | &$", "", t)
            if t.startswith("org::sem::") and t in recs and t not in ("org::sem::Org", "org::sem::OrgJson") and d["body"].get("s") is not None:
                fields(d, t, recs, byname, cnt, bad, samples)
        if q == BASE and d["name"] == "visitDispatch":
            dispatch(d, cnt, bad)
        if (short in DERIVED or q == BASE) and d["params"] and d["name"].startswith(("visit", "eval")):
            value(d, q, cnt, bad)
        if short in DERIVED:
            absent_content(d, cnt, bad)
        if short == "ExporterUltraplain" and d["name"] in PLAIN:
            want = PLAIN[d["name"]]
            got = [x["name"] for x in preorder(d["body"]) if x["k"] in ("Member", "DepMember") and x["name"] in want]
            for w in want:
                if w not in got:
                    bad(d, None, "every-field", f"plain text of {d['name'][5:]}: {w} is not exported", f"plain {d['name']} {w}")
            first = sorted(set(got), key=got.index)
            if set(first) == set(want) and first != list(want):
                bad(d, None, "every-field", f"plain text of {d['name'][5:]}: the parts are exported in the order {', '.join(first)}", f"plainorder {d['name']}")
    if cnt["visited types"] < 180 or cnt["dispatched kinds"] < 60:
        res.violation("anchor", UNITS[0], "anchor-present", f"only {cnt['visited types']} visited types and {cnt['dispatched kinds']} dispatched kinds were found")
    res.coverage = dict(explanation="field visits of every exporter function and value paths of the exporter classes, from the type-checked AST", units_analysed=UNITS,
                        rule="each field is visited once under its own name; each present value and each element reaches the output", samples=samples, **cnt)
    res.extra["summary"] = ", ".join(f"{v} {k}" for k, v in cnt.items())
    return astq.settle(res, units)


def visits(fn, byname, pid=None, depth=0):
    """(call, name literal, member names) of the field visits of a function, helpers entered"""
    pid = pid or fn["params"][1]["id"]
    alias = {pid}
    for n in walk(fn["body"]):
        if n["k"] == "Decl":
            for d in fieldflow.decls(n):
                if isinstance(d.get("init"), dict):
                    i = strip(d["init"])
                    while i and i["k"] in ("MCall", "Call", "OpCall") and (name_of(i) in ("get", "value", "operator->", "operator*", "asOrg", "as") or i.get("op") in ("*", "->")):
                        i = strip(i.get("obj") or (i["a"][0] if i.get("a") else {"k": "?"}))
                    if i and i["k"] == "Ref" and i.get("id") in alias:
                        alias.add(d["id"])
    for n in walk(fn["body"]):
        if n["k"] in ("Call", "MCall") and name_of(n).startswith("visitField"):
            lit = [a for a in n.get("a", []) if a["k"] == "Str" or a["k"] == "Cast" and strip(a)["k"] == "Str"]
            mem = []
            for a in n.get("a", [])[1:]:
                for x in walk(a):
                    if x["k"] in ("Member", "DepMember") and any(y["k"] == "Ref" and y.get("id") in alias for y in walk(x)):
                        mem.append(x["name"])
            yield n, strip(lit[0])["v"] if lit else None, mem
        elif n["k"] in ("Call", "MCall") and depth < 3 and any(strip(a)["k"] == "Ref" and strip(a).get("id") in alias for a in n.get("a", [])):
            for g in byname.get(n.get("fn", ""), []):
                if g is not fn and not g["name"].startswith("visitField"):
                    for p, a in zip(g["params"], n["a"]):
                        if strip(a)["k"] == "Ref" and strip(a).get("id") in alias:
                            yield from visits(g, byname, p["id"], depth + 1)


def fields(d, t, recs, byname, cnt, bad, samples):
    cnt["visited types"] += 1
    want = {k: v for k, v in fields_of(recs, t).items() if "std::variant<" not in v.get("ct", "") and not k.startswith("_")}
    want.pop("parent", None)
    have = list(visits(d, byname))
    seen = defaultdict(int)
    for n, lit, mem in have:
        own_ = [m for m in mem if m in want]
        for m in own_:
            seen[m] += 1
        if lit is not None and own_ and lit not in own_ and lit in want:
            bad(d, n.get("l"), "own-name", f"{t}: {own_[0]} is exported as \"{lit}\", the name of another field", f"name {t} {lit}")
        elif lit is not None and len(own_) == 1 and lit != own_[0]:
            bad(d, n.get("l"), "own-name", f"{t}: {own_[0]} is exported as \"{lit}\"", f"name {t} {own_[0]}")
        cnt["field visits"] += bool(own_)
    loose = any(x["k"] in ("Call", "MCall") and re.search("visitDescribed|mp_for_each|for_each_field", name_of(x)) for x in walk(d["body"]))
    mentioned = {x["name"] for x in walk(d["body"]) if x["k"] in ("Member", "DepMember")}
    for f in sorted(want):
        if f not in seen and f not in mentioned and not loose:
            bad(d, None, "every-field", f"{t}: {f} is not exported", f"lost {t} {f}")
        elif seen[f] > 1:
            bad(d, None, "own-name", f"{t}: {f} is exported {seen[f]} times", f"twice {t} {f}")
    if len(samples) < 10:
        samples.append(f"{t}: {', '.join(sorted(seen))}"[:100])


def dispatch(d, cnt, bad):
    for sw in walk(d["body"]):
        if sw["k"] != "Switch" or "OrgSemKind" not in str(sw.get("ct", "")):
            continue
        body = sw["body"]["s"] if sw["body"]["k"] == "Block" else [sw["body"]]
        for s in body:
            labels = []
            while s["k"] in ("Case", "Default"):
                if s["k"] == "Case":
                    labels.append(strip(s["v"]).get("name", "?"))
                s = s["s"]
            if len(labels) != 1 or s["k"] != "Block":
                continue
            calls = [(name_of(x), x) for x in walk(s) if x["k"] in ("Call", "MCall")]
            vs = [n for n, x in calls if re.match(r"visit[A-Z]", n) and n != "visitDispatchHook"]
            cnt["dispatched kinds"] += 1
            if vs and "visit" + labels[0] not in vs:
                bad(d, s.get("l"), "kind-visits-itself", f"nodes of kind {labels[0]} are exported by {vs[0]}", f"dispatch {labels[0]}")
            elif not vs and not any(re.match("visit", n) for n, x in calls):
                bad(d, s.get("l"), "kind-visits-itself", f"nodes of kind {labels[0]} are not exported", f"nodispatch {labels[0]}")
            elif vs.count("visit" + labels[0]) > 1:
                bad(d, s.get("l"), "kind-visits-itself", f"nodes of kind {labels[0]} are exported more than once", f"twice {labels[0]}")
            names = [n for n, x in calls]
            for a, b in (("pushVisit", "popVisit"),):
                if names.count(a) != names.count(b):
                    bad(d, s.get("l"), "visits-are-paired", f"kind {labels[0]}: {a} and {b} are not called in pairs", f"pair {labels[0]}")
            if not fieldflow.leaves(s, True) and s is not body[-1]:
                bad(d, s.get("l"), "kind-visits-itself", f"the case of kind {labels[0]} runs on into the next one", f"fall {labels[0]}")
            elif names.count("visitDispatchHook") > 1:
                bad(d, s.get("l"), "visits-are-paired", f"kind {labels[0]}: the dispatch hook is called more than once", f"hook {labels[0]}")


def value(d, q, cnt, bad):
    """a value given to a visitor reaches the output"""
    p = d["params"][-1]
    short = q.rsplit("::", 1)[-1]
    if any(re.fullmatch(c, q) and re.fullmatch(f, d["name"]) and re.search(t, p["t"]) for c, f, t in IGNORED) or d["body"]["k"] != "Block":
        return
    if q == BASE and p["ct"].startswith(("const org::sem::", "org::sem::SemId<org::sem::")) and d["name"] != "visitDispatch" and not p["ct"].startswith("org::sem::SemId<org::sem::Org>"):
        return
    if not p["name"]:
        return
    cnt["value paths"] += 1
    u = uses_value(d["body"], p["id"], Cond(p["id"], True), d["name"] == "eval")
    if u is False:
        bad(d, None, "value-reaches-output", f"{short}::{d['name']}({p['t']}): a value that is there is not exported", f"value {q} {d['name']} {p['ct']}")
    u = uses_value(d["body"], p["id"], Cond(p["id"], True, True))
    if u is False:
        bad(d, None, "value-reaches-output", f"{short}::{d['name']}({p['t']}): a value that is there is not exported when empty ones are skipped", f"skip {q} {d['name']} {p['ct']}")
    if re.search(r"optional<|Opt<", p["ct"] + p["t"]):
        for fl in (False, True):
            x = deref_when_absent(d, p["id"], Cond(p["id"], False, fl))
            if x:
                bad(d, x.get("l"), "absent-value-not-read", f"{short}::{d['name']}({p['t']}): the content of an absent value is read", f"absent {q} {d['name']} {p['ct']}")
                break
    for n in own(d["body"]):
        if n["k"] != "RangeFor" or not isinstance(n.get("range"), dict):
            continue
        if not any(x["k"] == "Ref" and x.get("id") == p["id"] for x in walk(n["range"])):
            continue
        cnt["element loops"] += 1
        ids = {b["id"] for v in fieldflow.decls(n.get("var")) for b in ([v] + v.get("bind", [])) if "id" in b}
        if not always_used(n["body"], ids):
            bad(d, n.get("l"), "every-element", f"{short}::{d['name']}({p['t']}): not every element is exported", f"elements {q} {d['name']} {p['ct']}")
        for x in own(n["body"]):
            if x["k"] in ("Break", "Return"):
                bad(d, x.get("l"), "every-element", f"{short}::{d['name']}({p['t']}): the loop over the elements may stop early", f"stop {q} {d['name']} {p['ct']}")
                break
        for v in fieldflow.decls(n.get("var")):
            for b in v.get("bind", []):
                if not any(x["k"] == "Ref" and x.get("id") == b["id"] for x in walk(n["body"])):
                    bad(d, n.get("l"), "every-element", f"{short}::{d['name']}({p['t']}): `{b.get('name', '')}` of an element is not exported", f"element {q} {d['name']} {b.get('name')}")
    # keys: what is stored under a name comes from the value, and the name is the given one
    names = {x["id"] for x in d["params"] if x["t"] in ("const char *",)}
    for n in own(d["body"]):
        t, s = (n["a"], n["b"]) if n["k"] == "Bin" and n["op"] == "=" else (n["a"][0], n["a"][1]) if n["k"] == "OpCall" and n.get("op") == "=" and len(n["a"]) == 2 else (None, None)
        if t and d["name"] == "visitField" and names and t["k"] in ("OpCall", "Index") and t.get("op", "[]") == "[]":
            k = t["a"][1] if t["k"] == "OpCall" else t.get("i")
            if isinstance(k, dict) and not any(x["k"] == "Ref" and x.get("id") in names for x in walk(k)) and strip(k)["k"] == "Str":
                bad(d, n.get("l"), "own-name", f"{short}::{d['name']}({p['t']}): the field is stored under a fixed name", f"fixed {q} {p['ct']}")
