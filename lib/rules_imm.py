"""C07: freezing a node into the immutable store and thawing it keeps every field."""
import re
from collections import defaultdict
import astq, fieldflow
from astq import walk
from common import Result
from rules_serde import presence, variant_alts

UNITS = ["src/haxorg/imm/ImmOrgStore.cpp"]
SERDE = "ImmSemSerde"


def strip(n):
    while isinstance(n, dict) and n["k"] in ("Cast", "Copy", "Un") or isinstance(n, dict) and n["k"] == "Ctor" and len(n.get("a", [])) == 1:
        n = n["e"] if "e" in n else n["a"][0]
    return n


def returned(fn):
    return [n["e"] for n in own(fn["body"]) if n["k"] == "Return" and isinstance(n.get("e"), dict)]


def own(n):
    """nodes of a body without those of lambdas in it"""
    yield n
    if n["k"] != "Lambda":
        for c in astq.kids(n):
            yield from own(c)


class Rflow(fieldflow.Flow):
    """transfers between the object that is returned and the parameter"""

    def go(self, fn):
        rets = [strip(e) for e in returned(fn)]
        ids = {e["id"] for e in rets if e and e["k"] == "Ref" and e.get("dk") == "local"}
        self.single = len(ids) == 1 and len(rets) == 1
        self.run0(fn, ids)
        return self

    def run0(self, fn, ids):
        self.transfers, self.mentions, self.guardmentions, self.loose, self.wholes, self.depth = [], set(), [], [], [], 0
        env = {fn["params"][0]["id"]: [("V",)]}
        for i in ids:
            env[i] = [("R",)]
        self.env = env
        self.stmt(fn["body"], env, (), ())

    def stmt(self, n, env, guards, cases):
        if n["k"] == "Decl":
            for d in fieldflow.decls(n):
                if env.get(d.get("id")) == [("R",)] and isinstance(d.get("init"), dict) and self.paths(d["init"], env):
                    self.loose.append(n)
                    return
        super().stmt(n, env, guards, cases)


def fields_of(recs, q, seen=()):
    r = recs.get(q)
    if not r or q in seen:
        return {}
    out = {}
    for b in r.get("bases", []):
        out.update(fields_of(recs, re.sub(r"^(struct|class) ", "", b["ct"]), (*seen, q)))
    out.update({f["name"]: f for f in r["fields"] if not f.get("static")})
    return out


def alternatives(t):
    m = re.search(r"std::variant<(.*)>", t or "")
    if not m:
        return []
    depth, cur, out = 0, "", []
    for c in m[1]:
        depth += (c in "<(") - (c in ">)")
        if depth < 0:
            break
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def check(tier):
    res = Result("C07")
    res.level = "other"
    units = astq.facts(UNITS)
    fs = units[UNITS[0]]
    recs, enums, fns = {}, {}, {}
    for d in fs["decls"]:
        if d["d"] == "rec":
            recs.setdefault(d["qual"], d)
        elif d["d"] == "enum":
            enums.setdefault(d["qual"], d)
        elif d["d"] == "fn" and d.get("def") and "body" in d:
            fns[d["id"]] = d
    cnt = defaultdict(int)
    samples = []

    def bad(fn, l, rule, what, key):
        res.violation(key, f"{fn['file']}:{l or fn['l']} ({fn.get('qual', '')[:120]})", rule, what)

    pairs = {}
    for d in fns.values():
        if d.get("clsq", "").rsplit("::", 1)[-1] == SERDE and d["name"] in ("to_immer", "from_immer") and d["params"] and len(d.get("clsTargs") or ()) == 2:
            pairs.setdefault((tuple(d["clsTargs"]), bool(d.get("dep"))), {})[d["name"]] = d
    for (key, dep), sides in sorted(pairs.items()):
        S, I = key
        for name, fn in sorted(sides.items()):
            cnt["converters"] += 1
            if dep:
                generic(fn, name, cnt, bad, key, fns)
                continue
            src, dst = (S, I) if name == "to_immer" else (I, S)
            if S == I:
                # the same type on both sides: the argument is handed back
                rets = [strip(e) for e in returned(fn)]
                if rets and not any(r and any(x["k"] == "Ref" and x.get("id") == fn["params"][0]["id"] for x in walk(r)) for r in rets):
                    bad(fn, None, "value-kept", f"{name} of {S} does not hand back its argument", f"same {S} {name}")
                else:
                    cnt["same type"] += 1
                continue
            if S not in recs or I not in recs or "SemId<" in S:
                generic(fn, name, cnt, bad, key, fns)
                continue
            sf, df = fields_of(recs, src), fields_of(recs, dst)
            f = Rflow(fns, lambda n, b: None).go(fn)
            if not f.single or f.loose:
                cnt["not understood"] += 1
                continue
            rel = defaultdict(list)
            whole = False
            for l, n, ps, guards, cases in f.transfers:
                R = {p[1:] for p in ps if p[0] == "R"}
                V = {p[1:] for p in ps if p[0] == "V"}
                if n is None or n["k"] == "Return":
                    continue
                if () in R and (V or n["k"] in ("Call", "MCall")) or () in V:
                    whole = whole or not (R == {()} and not V)
                    if R == {()} and not V and n["k"] == "Ref":
                        continue
                    if R == {()} or V == {()}:
                        whole = True
                        continue
                if len(R) == 1 and len(V) == 1:
                    r, v = R.pop(), V.pop()
                    if r and v:
                        rel[r[0]].append((v[0], l, n, guards, cases))
                        cnt["transfers"] += 1
                        continue
                if R and not V:
                    r = R.pop()
                    tgt = n["a"] if n["k"] == "Bin" and n["op"] == "=" else n["a"][0] if n["k"] == "OpCall" and n.get("op") == "=" else None
                    clear = n["k"] == "MCall" and n.get("fn", "").rsplit("::", 1)[-1] in ("clear", "reset")
                    if r and len(r) == 1 and not guards and (tgt is not None or clear):
                        rel[r[0]].append((None, l, n, guards, cases))
                    continue
                if R or V:
                    whole = whole or len(R) > 1 or len(V) > 1
            for r, ts in sorted(rel.items()):
                v, l, n, guards, cases = ts[-1]
                if v is None:
                    if any(t[0] is not None for t in ts):
                        bad(fn, l, "value-kept", f"{name} of {S}: {r} is overwritten after it was converted", f"overwrite {S} {r} {name}")
                    continue
                for v, l, n, guards, cases in ts:
                    if v is not None and v != r and not v.startswith("()") and v in sf and r in df and r in sf:
                        bad(fn, l, "same-field", f"{name} of {S}: {r} is made from {v}", f"cross {S} {r} {name}")
                v, l, n, guards, cases = ts[-1]
                if len(ts) == 1:
                    for c, taken in guards:
                        pr = presence(c, f, None)
                        gp = {q[1:] for m, q in f.guardmentions if m is c and q[0] == "V" and len(q) > 1}
                        if pr is None or not gp:
                            continue
                        if not any(q[:1] == (v,) for q in gp):
                            bad(fn, l, "guard-tests-own-field", f"{name} of {S}: {r} is converted depending on {sorted(gp)[0][0]}", f"guard {S} {r} {name}")
                        elif pr[0] != taken:
                            bad(fn, l, "guard-polarity", f"{name} of {S}: {r} is converted only when it is absent", f"polarity {S} {r} {name}")
            mentioned = {p[1] for p in f.mentions if p[0] == "R" and len(p) > 1}
            for x in sorted(df):
                if x not in mentioned and not whole and x in sf:
                    bad(fn, None, "every-field", f"{name} of {S}: {x} is not converted", f"lost {S} {x} {name}")
            if not whole:
                cnt["complete"] += 1
            if len(samples) < 10:
                samples.append(f"{name} {S}: {len(rel)} fields")
        if not dep and S != I and S in recs and I in recs and "SemId<" not in S:
            cnt["classes"] += 1
            a, b = fields_of(recs, S), fields_of(recs, I)
            for x in sorted(set(a) - set(b) - {"parent"}):
                if not x.startswith("_"):
                    bad(recs[I], None, "every-field", f"{x} of {S} has no counterpart in {I}", f"missing {S} {x}")
            for x in sorted(set(a) & set(b)):
                va, vb = alternatives(a[x].get("ct")), alternatives(b[x].get("ct"))
                if va and vb:
                    cnt["variants"] += 1
                    na, nb = [tail(v) for v in va], [tail(v) for v in vb]
                    if na != nb:
                        i = next((i for i, (p, q) in enumerate(zip(na, nb)) if p != q), min(len(na), len(nb)))
                        bad(recs[I], b[x].get("l"), "alternatives-correspond", f"alternative {i} of {x} is different in {S} and {I}", f"alts {S} {x}")
            enum_pairs(S, I, recs, enums, cnt, bad)
    # the way from and to the store
    for fn in fns.values():
        q = fn["qual"]
        if re.search(r"::(ImmAstKindStore|ImmAstStore|ImmAstContext)(<.*>)?::(add|get)$", q) and fn["params"] and re.search(r"SemId<|ImmId\b|SemId_t", fn["params"][0]["ct"] + fn["params"][0]["t"]) \
                or re.search(r"imm::(immer_from_sem|sem_from_immer)$", q):
            cnt["store functions"] += 1
            generic(fn, fn["name"], cnt, bad, (fn.get("clsq") or "the models", fn["params"][0]["t"]), fns)
        made = {}
        for n in walk(fn["body"]):
            if n["k"] == "Decl" and fn.get("clsq", "").rsplit("::", 1)[-1] != SERDE:
                for d in fieldflow.decls(n):
                    if isinstance(d.get("init"), dict) and any(name_of(x) in ("to_immer", "from_immer") for x in walk(d["init"]) if x["k"] == "Call"):
                        made[d["id"]] = d["name"]
        for n in walk(fn["body"]):
            t = n["a"] if n["k"] == "Bin" and n["op"] == "=" else n["a"][0] if n["k"] == "OpCall" and n.get("op") == "=" else None
            while isinstance(t, dict) and t["k"] in ("Member", "DepMember", "Cast", "Un"):
                t = t.get("b") or t.get("e")
            if isinstance(t, dict) and t["k"] == "Ref" and t.get("id") in made:
                bad(fn, n.get("l"), "value-kept", f"{fn['name']}: {made[t['id']]} is changed after it was converted", f"changed {q}")
    if cnt["classes"] < 80:
        res.violation("anchor", UNITS[0], "anchor-present", f"only {cnt['classes']} converted classes were found, 80 expected")
    res.coverage = dict(explanation="field-transfer relation of every converter between the mutable and the immutable document model, extracted from the type-checked AST", units_analysed=UNITS,
                        rule="each direction assigns every field from the field of the same name, alternatives and enumerators correspond", samples=samples, **cnt)
    res.extra["summary"] = ", ".join(f"{v} {k}" for k, v in cnt.items())
    return astq.settle(res, units)


def tail(t):
    """name of an alternative without the prefix of the immutable model"""
    t = re.sub(r"org::imm::ImmIdT<org::imm::Imm(\w+)>", r"org::sem::SemId<org::sem::\1>", t)
    t = re.sub(r"^immer::box<(.*?)(, immer::.*)?>$", r"\1", t)
    return re.sub(r"^Imm", "", re.sub(r"\borg::imm::ImmIdT?\b", "SemId", t).rsplit("::", 1)[-1])


def enum_pairs(S, I, recs, enums, cnt, bad):
    for q, e in enums.items():
        if q.startswith(S + "::") and "::" not in q[len(S) + 2:]:
            o = enums.get(I + q[len(S):])
            if not o or not e.get("c") or not o.get("c"):
                continue
            cnt["enums"] += 1
            a, b = dict(e["c"]), dict(o["c"])
            for n in sorted(set(a) | set(b), key=lambda n: a.get(n, b.get(n))):
                if a.get(n) != b.get(n):
                    bad(dict(o, qual=o["qual"]), o.get("l"), "enumerators-correspond", f"{n} of {q} and of {o['qual']} do not have the same value", f"enum {q}")
                    break


def generic(fn, name, cnt, bad, key, fns):
    """containers: what is returned is made from the argument, elements are converted unconditionally"""
    f = Rflow(fns, lambda n, b: None, lambda g: False)
    f.run0(fn, ())
    pid = fn["params"][0]["id"]
    label = " and ".join(re.sub(r"type-parameter-\d+-\d+", "T", re.sub(r", .*>", ">", k)) for k in key)
    rets = returned(fn)
    if not rets:
        cnt["not understood"] += 1
        return
    cnt["generic"] += 1
    from_arg = False
    for e in rets:
        if any(p[0] == "V" for p in f.paths(e, f.env)) or touches(fn, e, pid):
            from_arg = True
    if not from_arg:
        bad(fn, None, "value-kept", f"{name} between {label}: what is returned does not come from the argument", f"generic {label} {name}")
        return
    # the empty/absent tests
    for n in own(fn["body"]):
        if n["k"] != "If":
            continue
        pr = presence(n["c"], f, None)
        if pr is None or not any(x["k"] == "Ref" and x.get("id") == pid for x in walk(n["c"])):
            continue
        call = dep_name(pr[1])
        if call not in (None, "has_value", "operator bool", "empty", "isNil"):
            continue
        pol = pr[0]
        if call == "empty" and pr[1]["k"] == "Call":
            pol = not pol
        if call == "isNil" and pr[1]["k"] == "Call":
            pol = not pol
        there, absent = (n["then"], n.get("else")) if pol else (n.get("else"), n["then"])
        uses = lambda b: bool(b) and any(x["k"] == "Ref" and x.get("id") == pid for x in walk(b))
        if uses(absent) and not uses(there) and (there or not fieldflow.leaves(absent)):
            bad(fn, n.get("l"), "guard-polarity", f"{name} between {label}: the value is converted only when it is absent", f"generic polarity {label} {name}")
    # loops over the argument convert each element
    for n in own(fn["body"]):
        if n["k"] == "RangeFor" and isinstance(n.get("range"), dict):
            r = strip(n["range"])
            if r["k"] == "Ref" and r.get("id") == pid:
                cnt["element loops"] += 1
                for x in own(n["body"]):
                    if x["k"] == "Break" or x["k"] in ("Return",):
                        bad(fn, x.get("l"), "every-element", f"{name} between {label}: the loop over the elements may stop early", f"generic stop {label} {name}")
                ids = {b["id"] for d in fieldflow.decls(n.get("var")) for b in ([d] + d.get("bind", [])) if "id" in b}
                if not always_used(n["body"], ids):
                    bad(fn, n.get("l"), "every-element", f"{name} between {label}: not every element is used", f"generic elements {label} {name}")
                binds = [b for d in fieldflow.decls(n.get("var")) for b in d.get("bind", [])]
                for b in binds:
                    k = sum(1 for x in walk(n["body"]) if x["k"] == "Ref" and x.get("id") == b["id"])
                    if not k:
                        bad(fn, n.get("l"), "every-element", f"{name} between {label}: `{b.get('name', '')}` of an element is not used", f"generic element {label} {name} {b.get('name')}")
                if len(binds) == 2:
                    order(fn, n, binds, name, label, bad)


def always_used(b, ids):
    """every path through the statement does something with the element"""
    ids = set(ids)

    def uses(n):
        return any(x["k"] == "Ref" and x.get("id") in ids for x in walk(n))

    def go(n):
        if n["k"] == "Block":
            for s in n["s"]:
                r = go(s)
                if r is not None:
                    return r
            return None
        if n["k"] == "Decl":
            for d in fieldflow.decls(n):
                if isinstance(d.get("init"), dict) and uses(d["init"]):
                    ids.add(d["id"])
                    ids.update(b["id"] for b in d.get("bind", []))
            return None
        if n["k"] == "If":
            a = go(n["then"])
            c = go(n["else"]) if isinstance(n.get("else"), dict) else None
            if a is False or c is False:
                return False
            return True if a and c else None
        if n["k"] in ("Continue", "Break", "Return"):
            return True if n["k"] == "Return" and isinstance(n.get("e"), dict) and uses(n["e"]) else False
        if n["k"] == "Throw":
            return True
        return True if uses(n) else None

    return go(b) is True


def order(fn, n, binds, name, label, bad):
    """a pair is put together in the order it was taken apart"""
    for x in walk(n["body"]):
        if x["k"] == "InitList" and len(x.get("e", x.get("a", []))) == 2:
            it = x.get("e", x.get("a"))
            who = [{y.get("id") for y in walk(e) if y["k"] == "Ref"} & {b["id"] for b in binds} for e in it]
            if who == [{binds[1]["id"]}, {binds[0]["id"]}]:
                bad(fn, x.get("l") or n.get("l"), "every-element", f"{name} between {label}: key and value of an element are exchanged", f"generic exchanged {label} {name}")


def dep_name(n):
    if n["k"] == "Call" and isinstance(n.get("ce"), dict) and n["ce"]["k"] == "DepMember":
        return n["ce"]["name"]
    if n["k"] == "MCall":
        return n.get("fn", "").rsplit("::", 1)[-1]
    return None if n["k"] in ("Ref",) else "?"


def touches(fn, e, pid):
    """is the argument among what the expression may have been computed from?"""
    deps = defaultdict(set)
    for n in walk(fn["body"]):
        ids = None
        if n["k"] == "Decl":
            for d in fieldflow.decls(n):
                if isinstance(d.get("init"), dict):
                    deps[d["id"]] |= {x["id"] for x in walk(d["init"]) if x["k"] == "Ref" and "id" in x}
        elif n["k"] == "RangeFor" and isinstance(n.get("range"), dict):
            for d in fieldflow.decls(n.get("var")):
                for b in [d] + d.get("bind", []):
                    if "id" in b:
                        deps[b["id"]] |= {x["id"] for x in walk(n["range"]) if x["k"] == "Ref" and "id" in x}
        elif n["k"] in ("Bin", "OpCall", "Call", "MCall"):
            ids = {x["id"] for x in walk(n) if x["k"] == "Ref" and "id" in x}
            for i in ids:
                deps[i] |= ids - {i}
    seen, todo = set(), [x["id"] for x in walk(e) if x["k"] == "Ref" and "id" in x]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += deps.get(i, ())
    return pid in seen


def name_of(n):
    if n.get("fn"):
        return n["fn"].rsplit("::", 1)[-1]
    c = n.get("ce")
    return c.get("name", "") if isinstance(c, dict) else ""
