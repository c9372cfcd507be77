"""C09: the kind of a value tells what it is, and every kind is handled."""
import re
from collections import defaultdict
import astq, rules_reflect
from astq import walk, kids
from common import Result

UNITS = """haxorg/imm/ImmOrg.cpp haxorg/imm/ImmOrgBase.cpp haxorg/sem/SemOrgApi.cpp haxorg/sem/SemOrgBase.cpp haxorg/sem/SemOrgFormat.cpp
haxorg/sem/SemConvertUtils.cpp haxorg/sem/SemOrgBaseSharedTypes.cpp haxorg/api/SemBaseApi.cpp haxorg/api/EvalContext.cpp haxorg/api/ParseContext.cpp haxorg/serde/SemOrgSerde.cpp
haxorg/exporters/Exporter.cpp haxorg/exporters/ExporterJson.cpp haxorg/exporters/ExporterReport.cpp haxorg/exporters/ExporterUltraplain.cpp
haxorg/exporters/exportersimplesexpr.cpp haxorg/exporters/exportertree.cpp haxorg/exporters/exporteryaml.cpp
haxorg/parse/OrgParser.cpp haxorg/parse/OrgParserReport.cpp haxorg/parse/OrgTokenizer.cpp haxorg/parse/OrgTokenizerReport.cpp
hstd/ext/geometry/hstd_visual.cpp hstd/ext/geometry/hstd_geometry.cpp hstd/ext/graph/visual/graph_graphviz.cpp hstd/ext/error_write.cpp hstd/ext/astdiff/astdiff.cpp
hstd/stdlib/ColText.cpp hstd/stdlib/diffs.cpp hstd/stdlib/Time.cpp""".split()

# kinds that a dispatch refuses on purpose (they are handled before it)
REFUSED = {"IncludeError", "Raw", "None", "Subtree", "DOT"}
THROUGH = ("Cast", "Copy", "Paren", "Full")


def strip(n):
    while n["k"] in THROUGH and "e" in n:
        n = n["e"]
    return n


def result(fn):
    """the expression of a function that only returns one"""
    b = fn.get("body")
    ss = [s for s in b["s"] if s["k"] not in ("Null",) and not (s["k"] == "Decl" and not any("init" in v for v in s.get("vars", [])))] if b else []
    if len(ss) == 1 and ss[0]["k"] == "Return" and ss[0].get("e"):
        return strip(ss[0]["e"])


def groups(body):
    """[(labels, statements)] of a switch body"""
    out = []
    for s in body.get("s", []):
        labs = []
        while s is not None and s["k"] in ("Case", "Default"):
            labs.append(s)
            s = s.get("s")
        if labs:
            out.append([labs, []])
        if out and s is not None:
            out[-1][1].append(s)
    return out


def labels(n):
    out, default, stack = [], False, [n["body"]]
    while stack:
        x = stack.pop()
        if x["k"] == "Switch":
            continue
        if x["k"] == "Case":
            out.append(x)
        if x["k"] == "Default":
            default = True
        stack.extend(kids(x))
    return out, default


def ends(s):
    """can control leave the end of the statement?"""
    if s["k"] in ("Return", "Break", "Continue", "Throw", "Goto"):
        return False
    if s["k"] == "Block":
        return all(ends(x) for x in s["s"])
    return True


def parts(variant):
    """alternatives of std::variant<...>"""
    out, depth, cur = [], 0, ""
    for ch in variant[len("std::variant<"):-1]:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (ch == "<") - (ch == ">")
        cur += ch
    return out + [cur.strip()]


def bare(t):
    t = re.sub(r"\b(const|volatile)\b", "", t).replace("&", "").strip()
    return t


def check(tier):
    res = Result("C09")
    res.level = "other"
    umb = rules_reflect.umbrella()
    units = astq.facts([umb] + ["src/" + u for u in UNITS])
    enums, recs, fns, variables, seen = {}, {}, {}, {}, set()
    byq = defaultdict(list)
    for u, f in units.items():
        for d in f["decls"]:
            if d["d"] == "enum" and d.get("c"):
                enums.setdefault(d["qual"], d)
            elif d["d"] == "rec" and "fields" in d:
                recs.setdefault(d["qual"], d)
            elif d["d"] == "var":
                if d.get("init"):
                    variables.setdefault(d["qual"], d)
            elif d["d"] == "fn" and "body" in d:
                k = (d["file"], d["l"], d["qual"], d["sig"])
                if k not in seen:
                    seen.add(k)
                    byq[d["qual"]].append(d)
                    fns[k] = d
    cnt = defaultdict(int)

    def bad(d, l, rule, what, key):
        res.violation(key, f"{d['file']}:{l or d['l']} ({d['qual'][:100]})", rule, what)

    # ---- node classes name their own kind
    nodes = {n for n, _ in enums["OrgSemKind"]["c"]} if "OrgSemKind" in enums else set()
    for n in sorted(nodes):
        for q in (f"org::sem::{n}", f"org::imm::Imm{n}"):
            if q not in recs:
                continue
            own = byq.get(q + "::getKind", [])
            if not own:
                bad(recs[q], None, "node-kind", f"{q} does not say what kind of node it is", f"nokind {q}")
            for d in own:
                e = result(d)
                if e and e["k"] == "Ref" and e.get("dk") == "enum":
                    cnt["kinds"] += 1
                    if e["name"] != n:
                        bad(d, e["l"], "node-kind", f"{q} reports the kind {e['name']}", f"kind {q}")
            v = variables.get(q + "::staticKind")
            if v:
                e = strip(v["init"])
                if e["k"] == "Ref" and e.get("dk") == "enum":
                    cnt["static"] += 1
                    if e["name"] != n:
                        bad(v, None, "node-kind", f"{q}::staticKind is {e['name']}", f"static {q}")
            elif cnt["static"] and "src/haxorg/sem/SemOrgApi.cpp" in units:
                bad(recs[q], None, "node-kind", f"{q}::staticKind is never defined", f"nostatic {q}")

    # ---- discriminated unions: enumerators and alternatives go together
    unions = {}
    for q, ds in byq.items():
        for d in ds:
            if not re.search(r"::get\w*Kind$", q) or len(d["params"]) != 1:
                continue
            vt, et = bare(d["params"][0]["ct"]), bare(d["cret"])
            if vt.startswith("std::variant<") and et in enums:
                e = d["body"]["s"][0].get("e") if len(d["body"]["s"]) == 1 and d["body"]["s"][0]["k"] == "Return" else None
                idx = strip(e) if e else {}
                if idx.get("k") == "MCall" and idx.get("fn", "").endswith("::index"):
                    unions.setdefault((d["clsq"], et), (vt, d))
    for (c, et), (vt, d) in sorted(unions.items()):
        alts = parts(vt)
        en = [(n, int(v)) for n, v in enums[et]["c"]]
        num = dict(en)
        cnt["unions"] += 1
        if len(en) != len(alts) or sorted(num.values()) != list(range(len(alts))):
            bad(d, None, "kind-per-alternative", f"{et} has {len(en)} values for the {len(alts)} alternatives it numbers", f"count {et}")
            continue
        last = [a.split("<")[0].rsplit("::", 1)[-1] for a in alts]
        for i, n in enumerate(last):
            if n in num and num[n] != i and last.count(n) == 1:
                bad(enums[et] | dict(qual=et), None, "kind-per-alternative", f"{et}::{n} is number {num[n]} but alternative {alts[i]} is number {i}", f"order {et} {n}")
        for n in num:
            cap = n[0].upper() + n[1:]
            for g in byq.get(f"{c}::is{cap}", []):
                e = result(g)
                pol = True
                while e and e["k"] == "Un" and e.get("op") == "!":
                    pol, e = not pol, strip(e["e"])
                if e and e["k"] == "Bin" and e.get("op") in ("==", "!="):
                    pol = pol == (e["op"] == "==")
                    r = [x for x in (strip(e["a"]), strip(e["b"])) if x["k"] == "Ref" and x.get("dk") == "enum" and x["t"].replace("const ", "") and x["qual"].startswith(et + "::")]
                    if len(r) == 1:
                        cnt["queries"] += 1
                        if r[0]["name"] != n or not pol:
                            bad(g, r[0]["l"], "query-own-kind", f"is{cap}() answers whether the kind is {'' if pol else 'not '}{r[0]['name']}", f"is {c} {n}")
            for g in byq.get(f"{c}::get{cap}", []):
                e = result(g)
                if e and e["k"] == "Call" and e.get("fn", "").rsplit("::", 1)[-1] in ("variant_get", "get") and e.get("targs"):
                    m = re.fullmatch(r"(\d+)[uUlL]*", e["targs"][0])
                    args = [strip(a) for a in e.get("a", [])]
                    if m and args and args[0].get("k") == "Member":
                        fld = next((x for x in recs.get(c, {}).get("fields", []) if x["name"] == args[0]["name"]), None)
                        if fld and bare(fld["ct"]) == vt:
                            cnt["getters"] += 1
                            if int(m[1]) != num[n]:
                                bad(g, e["l"], "getter-own-alternative", f"get{cap}() returns alternative {m[1]}, which is {alts[int(m[1])]}", f"get {c} {n}")

    # ---- switches
    done = set()
    for d in fns.values():
        for n in walk(d["body"]):
            if n["k"] != "Switch":
                continue
            et = n.get("ct", "").replace("const ", "").strip()
            ls, default = labels(n)
            if et not in enums and ls:
                q = strip(ls[0]["v"]).get("qual", "")
                et = q.rsplit("::", 1)[0] if q.rsplit("::", 1)[0] in enums else et
            if et not in enums or not ls:
                continue
            key = (d["file"], n["l"], d["qual"])
            if key in done:
                continue
            done.add(key)
            cnt["switches"] += 1
            vals = {v for _, v in enums[et]["c"]}
            have = {strip(x["v"]).get("cv", x["v"].get("cv")) for x in ls}
            if None in have:
                continue
            if not default:
                miss = [nm for nm, v in enums[et]["c"] if v not in have]
                if miss:
                    bad(d, n["l"], "every-kind-handled", f"no case and no default for {et}::{', '.join(miss[:5])}", f"switch {d['qual']} {et} {miss[0]}")
            gs = groups(n["body"])
            refuses = any(any(x["k"] == "Default" for x in labs) and any(x["k"] == "Throw" for s in ss for x in walk(s)) for labs, ss in gs)
            if default and refuses:
                miss = [nm for nm, v in enums[et]["c"] if v not in have]
                if len(miss) * 3 < len(vals) and set(miss) - REFUSED:
                    bad(d, n["l"], "every-kind-handled", f"{et}::{', '.join(sorted(set(miss) - REFUSED))} is refused although the other kinds are handled",
                        f"refused {d['qual']} {et}")
            # a case that works on a node of another kind
            if et == "OrgSemKind":
                own = other = 0
                odd = []
                for labs, ss in gs:
                    ns = {strip(x["v"]).get("name") for x in labs if x["k"] == "Case"}
                    used = set()
                    for s in ss:
                        for x in walk(s):
                            for t in x.get("targs", []) if isinstance(x.get("targs"), list) else []:
                                m = re.fullmatch(r"(?:const )?org::(?:sem::|imm::Imm|imm::ImmAdapterT<org::imm::Imm)(\w+)>?(?: const)?", t)
                                if m and m[1] in nodes:
                                    used.add(m[1])
                    if used:
                        if used & ns:
                            own += 1
                        else:
                            other += 1
                            odd.append((labs[0], ns, used))
                if own >= 8 and own > 4 * other:
                    for lab, ns, used in odd:
                        bad(d, lab["l"], "case-own-type", f"the case for {', '.join(sorted(map(str, ns)))} works on a node of type {', '.join(sorted(used))}", f"case {d['qual']} {sorted(map(str, ns))[0]}")
            # names: two kinds never share a name
            names = defaultdict(list)
            whole = True
            for labs, ss in gs:
                if len(ss) == 1 and ss[0]["k"] == "Return" and ss[0].get("e") and all(x["k"] == "Case" for x in labs):
                    st = [x["v"] for x in walk(ss[0]) if x["k"] == "Str"]
                    if len(st) == 1 and not any(x["k"] in ("MCall", "Ref", "Cond", "Member", "OpCall") for x in walk(ss[0]["e"]) if x.get("dk") != "fn"):
                        names[st[0]].append([strip(x["v"]).get("name") for x in labs])
                        continue
                if not any(x["k"] == "Default" for x in labs):
                    whole = False
            if whole and len(names) >= 2:
                cnt["namings"] += 1
                for s, w in names.items():
                    fl = [x for y in w for x in y]
                    if len(fl) > 1:
                        bad(d, n["l"], "distinct-names", f"{' and '.join(map(str, fl))} are both called \"{s}\"", f"name {d['qual']} {s}")
    res.coverage = dict(analysed=dict(cnt), explanation="units and all reflected headers are type-checked; every node class, every discriminated union with its enumeration, queries and getters, "
                        "and every switch over an enumeration is inspected")
    for k, lo in dict(kinds=150, static=150, unions=15, queries=90, getters=150, switches=60, namings=5).items():
        if cnt[k] < lo:
            res.notes.append(f"only {cnt[k]} {k} understood (usually at least {lo})")
    if cnt["kinds"] < 80 or cnt["switches"] < 30:
        res.violation("anchor", "src", "anchor-present", f"only {dict(cnt)} found")
    res.extra["summary"] = ", ".join(f"{v} {k}" for k, v in cnt.items())
    return astq.settle(res, units)
