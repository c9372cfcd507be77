"""C11: the Python, C and JavaScript bindings bind every name to the member of that name."""
import re
from collections import Counter, defaultdict
import astq
from astq import walk
from common import Result
from rules_imm import strip, name_of

PY, JS, C, VT = ("src/py_libs/pyhaxorg/pyhaxorg.cpp", "src/wrappers/js/haxorg_wasm.cpp", "src/wrappers/c/haxorg_c.cpp", "src/wrappers/c/haxorg_c_vtables.cpp")
UNITS = [PY, JS, C, VT]
REGISTER = {"def", "def_static", "def_rw", "def_ro", "def_prop_rw", "value", "property", "function", "class_function"}
OPERATOR = {"operator==": "__eq__", "operator!=": "__ne__", "operator<": "__lt__", "operator<=": "__le__", "operator>": "__gt__", "operator>=": "__ge__",
            "operator[]": "__getitem__", "operator()": "__call__", "operator+": "__add__", "operator-": "__sub__", "operator bool": "__bool__"}
PROTOCOL = {"__getitem__": {"at", "operator[]", "get"}, "__len__": {"size", "length"}, "__contains__": {"contains", "has"}, "__iter__": {"begin", "iter"},
            "__str__": {"toString", "format", "to_string"}, "__repr__": {"toString", "format", "to_string"}, "__hash__": {"hash"},
            "__bool__": {"operator bool", "has_value"}, "__call__": {"operator()"}, "__setitem__": {"set", "assign"}}


def bare(t):
    """a type without const, reference, pointer and elaboration"""
    t = re.sub(r"\b(const|struct|class|enum|volatile)\b", " ", t or "")
    t = t.replace("*", " ").replace("&", " ")
    return re.sub(r"\s+", " ", t).strip()


def first_targ(t):
    """first template argument of a template-id"""
    i = t.find("<")
    if i < 0:
        return ""
    d, out = 0, ""
    for ch in t[i + 1:]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            if d == 0:
                break
            d -= 1
        elif ch == "," and d == 0:
            break
        out += ch
    return out.strip()


def is_const(ref, node):
    """whether the bound member function is const: None when that cannot be told"""
    sig = ref.get("sig") or ref.get("t") or ""
    if ref.get("dk") != "fn" or "(" not in sig:
        return None
    return bool(re.search(r"\)\s*const(\s*&)?(\s*noexcept)?$", sig))


def norm(n):
    return re.sub(r"[^a-z0-9]", "", n.lower())


def name_fault(foreign, member, siblings):
    """why the foreign name does not denote the member, or None.
    `siblings`: the names of the other members of the same class."""
    if foreign == member:
        return None
    if member in OPERATOR or member.startswith("operator"):
        want = OPERATOR.get(member)
        if foreign.startswith("__"):
            if foreign == want or member in PROTOCOL.get(foreign, ()):
                return None
            return f"the protocol name {foreign} is bound to {member}" if foreign in OPERATOR.values() else None
        return f"the name {foreign} is bound to {member}" if foreign in siblings else None
    if foreign in OPERATOR.values() or foreign in PROTOCOL:
        if member in PROTOCOL.get(foreign, ()):
            return None
        # a comparison or conversion protocol bound to a plain member
        return f"the protocol name {foreign} is bound to {member}" if foreign in OPERATOR.values() and foreign != "__getitem__" and member in siblings | {member} and norm(member) != norm(foreign) else None
    if foreign in siblings:
        return f"the name {foreign} is bound to the member {member}, though the class has a member {foreign}"
    f, m = norm(foreign), norm(member)
    if f == m or f.startswith(m) or m.startswith(f) or f.endswith(m):
        return None
    return f"the name {foreign} is bound to the member {member}"


def reference(e):
    """the declaration a registration argument points at"""
    e = strip(e)
    return e if isinstance(e, dict) and e["k"] == "Ref" and e.get("dk") in ("field", "fn", "enum") else None


class Unit:
    def __init__(self, f):
        self.f = f
        self.recs, self.enums, self.fns = {}, {}, {}
        self.methods = defaultdict(set)
        for d in f["decls"]:
            if d["d"] == "rec":
                if d["qual"] not in self.recs or d.get("fields"):
                    self.recs[d["qual"]] = d
            elif d["d"] == "enum" and d.get("c"):
                self.enums[d["qual"]] = d
            elif d["d"] == "fn":
                self.fns[d["id"]] = d
                if d.get("cls"):
                    self.methods[d["cls"]].add(d["name"])

    def members(self, q, seen=()):
        out = set(self.methods.get(q, ()))
        r = self.recs.get(q)
        if r and q not in seen:
            out |= {x["name"] for x in r["fields"]} | set(x if isinstance(x, str) else x.get("name", "") for x in r.get("statics", []))
            for b in r.get("bases", []):
                out |= self.members(bare(b["ct"]), (*seen, q))
        return out

    def bases(self, q, seen=()):
        out = {q}
        for b in self.recs.get(q, {}).get("bases", []):
            n = bare(b["ct"])
            if n not in seen:
                out |= self.bases(n, (*seen, q))
        return out


def where(d, x):
    return f"{d['file'].split('/repo/')[-1]}:{x.get('l', d.get('l'))}"


def call_name(e):
    """names of what an expression or a body computes its value from"""
    return {name_of(x) for x in walk(e) if x["k"] in ("Call", "MCall", "OpCall")} | {x["name"] for x in walk(e) if x["k"] in ("DepRef", "DepMember")}


def protocol_lambda(name, lam, cls, enum):
    """why a lambda bound to a Python protocol name does not implement it, or None (also when it is not understood)"""
    ps = lam.get("params", [])
    body = lam["body"]
    rets = [x["e"] for x in walk(body) if x["k"] == "Return" and isinstance(x.get("e"), dict)]
    if name in ("__int__", "__index__", "__hash__") and enum and len(rets) == 1 and len(body["s"]) == 1 and ps:
        e = rets[0]
        if not any(x["k"] == "Ref" and x.get("id") == ps[0]["id"] for x in walk(e)):
            return "the result does not depend on the value"
        ops = {x["op"] for x in walk(e) if x["k"] == "Bin"} | {x["op"] for x in walk(e) if x["k"] == "Un" and x["op"] in "-~!"}
        if not ops and not call_name(e):
            return None
        if name != "__hash__" and ops & {"-", "+", "*", "/", "~", "!", "%", "<<", ">>", "|", "&", "^", "==", "!="} and all(
                x["k"] in ("Bin", "Un", "Cast", "Copy", "Ref", "Lit") for x in walk(e)):
            lits = [x for x in walk(e) if x["k"] == "Lit"]
            if all(str(x.get("cv", x.get("v"))) not in ("0",) for x in lits):
                return "the result is not the number of the enumerator"
        return None
    if name in ("__eq__", "__ne__", "__lt__") and len(ps) == 2 and len(rets) == 1 and len(body["s"]) == 1:
        e = strip_casts(rets[0])
        op = {"__eq__": "==", "__ne__": "!=", "__lt__": "<"}[name]
        if e["k"] in ("Bin", "OpCall") and e.get("op", "").replace("operator", "") in ("==", "!=", "<", ">", "<=", ">="):
            got = e["op"].replace("operator", "")
            sides = [e["a"], e["b"]] if e["k"] == "Bin" else e["a"]
            ids = [next((x["id"] for x in walk(s) if x["k"] == "Ref"), None) for s in sides]
            if set(ids) != {p["id"] for p in ps}:
                return "the operands are not the two values"
            if op == "<":
                good = (got == "<" and ids[0] == ps[0]["id"]) or (got == ">" and ids[0] == ps[1]["id"])
            else:
                good = got == op
            return None if good else f"compares with {got}"
        return None
    if name == "__init__" and ps:
        # the object is constructed at the given address, as the class that is bound
        news = [x for x in walk(body) if x["k"] == "New"]
        for x in news:
            t = bare(x.get("of") or x.get("t"))
            if t and t != cls and cls and "<" not in t and "<" not in cls:
                return f"constructs {t}"
        if any(p["t"].find("kwargs") >= 0 for p in ps) and not any(
                x["k"] == "Ref" and x.get("id") == p["id"] for p in ps if "kwargs" in p["t"] for x in walk(body)):
            return "the keyword arguments are ignored"
        return None
    if name in ("__repr__", "__getattr__") and ps:
        for p in ps:
            if rets and not any(x["k"] == "Ref" and x.get("id") == p["id"] for x in walk(body)):
                return f"the result does not depend on {p['name'] or 'a parameter'}"
        helper = {"__repr__": "py_getattr_impl", "__getattr__": "py_repr_impl"}[name]
        if helper in call_name(body):
            return f"calls {helper}"
    return None


def strip_casts(e):
    while isinstance(e, dict) and e["k"] in ("Cast", "Copy"):
        e = e["e"]
    return e


def registrations(U, dirs):
    for d in U.f["decls"]:
        if d["d"] != "fn" or not isinstance(d.get("body"), dict) or not any(x in d["file"] for x in dirs):
            continue
        for x in walk(d["body"]):
            if x["k"] in ("MCall", "Call") and name_of(x) in REGISTER and len(x.get("a", [])) > 1:
                s = strip(x["a"][0])
                if isinstance(s, dict) and s["k"] == "Str":
                    yield d, x, s["v"]


def check_registered(res, U, lang, dirs, st):
    """Python and JavaScript: names given to members, functions and enumerators"""
    bound, seen = defaultdict(set), defaultdict(dict)
    lines = {}
    for d in U.f["decls"]:
        # a member that is mentioned in some other way, such as through a helper or a lambda, is reached as well
        if d["d"] == "fn" and isinstance(d.get("body"), dict) and any(x in d["file"] for x in dirs):
            for x in walk(d["body"]):
                if x["k"] in ("Ref", "Member") and x.get("cls") and (x.get("dk") == "field" or x.get("fld")):
                    bound[x["cls"]].add(x["name"])
    for d, x, name in registrations(U, dirs):
        cls = first_targ(x.get("cls", "")) if x["k"] == "MCall" else ""
        e = strip(x["a"][1])
        ref = reference(x["a"][1])
        at = where(d, x)
        lines.setdefault(cls, at)
        how = name_of(x)
        st["registrations"] += 1
        if ref is None:
            if isinstance(e, dict) and e["k"] == "Lambda":
                st["lambdas"] += 1
                fault = protocol_lambda(name, e, cls, cls in U.enums)
                if fault:
                    res.violation(f"lambda {lang} {cls} {name}", at, "protocol-implemented", f"{lang} binding of {cls}: {name} is bound to a function that is not that: {fault}")
            continue
        st["references"] += 1
        member = ref["name"]
        bound[cls].add(member)
        owner = ref.get("cls") or ref.get("qual", "").rpartition("::")[0]
        others = U.members(cls) if ref["dk"] != "enum" else {k for k, _ in U.enums.get(cls, {}).get("c", [])}
        if not cls and ref["dk"] == "fn":
            others = {n for n in {g["name"] for g in U.fns.values() if not g.get("cls") and g["qual"].rpartition("::")[0] == ref["qual"].rpartition("::")[0]}}
        fault = name_fault(name, member, others - {member})
        if fault:
            res.violation(f"name {lang} {cls} {name}", at, "name-of-member", f"{lang} binding of {cls or 'the module'}: {fault}")
        if cls and ref["dk"] in ("field", "fn") and cls in U.recs and owner in U.recs and U.fns.get(ref.get("id"), {}).get("cls"):
            if owner not in U.bases(cls):
                res.violation(f"owner {lang} {cls} {name}", at, "member-of-class", f"{lang} binding of {cls}: {name} is bound to {ref['qual']}, a member of another class")
        con = is_const(ref, x)
        if con is not None and ref.get("cls"):
            if (name.endswith("Const") and not con and not member.endswith("Const")) or (name.endswith("Mut") and con and not member.endswith("Mut")):
                # only when both forms exist does the suffix tell them apart
                forms = {is_const(dict(sig=g.get("sig"), dk="fn"), None) for g in U.fns.values() if g.get("cls") == ref["cls"] and g["name"] == member}
                if len(forms) == 2:
                    res.violation(f"const {lang} {cls} {name}", at, "overload-of-name", f"{lang} binding of {cls}: {name} is bound to the {'const' if con else 'mutable'} overload of {member}")
        if name in seen[cls] and ref["dk"] in ("field", "enum") and seen[cls][name] != member:
            res.violation(f"twice {lang} {cls} {name}", at, "one-member-per-name", f"{lang} binding of {cls}: {name} is bound to {seen[cls][name]} and to {member}")
        if ref["dk"] in ("field", "enum"):
            seen[cls][name] = member
        if lang == "Python" and ref["dk"] == "fn" and ref.get("id") in U.fns:
            args = [s for z in x["a"][2:] for s in arg_names(z)]
            ps = [p["name"] for p in U.fns[ref["id"]]["params"]]
            st["argument lists"] += 1
            if len(args) == len(ps):
                for i, a in enumerate(args):
                    if a in ps and ps.index(a) != i and ps[i] != a:
                        res.violation(f"arg {lang} {cls} {name} {a}", at, "argument-order", f"{lang} binding of {cls}: {name} names argument {i + 1} '{a}', which is parameter {ps.index(a) + 1} of {ref['qual']}")
                        break
    return bound, lines


def type_names(res, U, lang, dirs, st):
    """the names given to classes and enumerations"""
    given = []
    for d in U.f["decls"]:
        if d["d"] != "fn" or not isinstance(d.get("body"), dict) or not any(x in d["file"] for x in dirs) or d.get("targs"):
            continue
        for x in walk(d["body"]):
            if x["k"] == "Ctor" and re.match(r"(nanobind|emscripten)::(class_|enum_)<", x.get("cls", "")):
                T = first_targ(x["cls"])
            elif x["k"] == "Call" and name_of(x) in ("bind_enum", "bind_enum_iterator") and x.get("targs"):
                T = x["targs"][0]
            else:
                continue
            s = next((strip(a)["v"] for a in x["a"] if isinstance(strip(a), dict) and strip(a)["k"] == "Str"), None)
            if s and T:
                given.append((s, bare(T), where(d, x)))
    wanted = {norm_path(T): T for _, T, _ in given if "<" not in T and T in U.recs or T in U.enums}
    first = {}
    st["type names"] += len(given)
    for s, T, at in given:
        U_T = first.setdefault(s, T)
        if U_T != T:
            res.violation(f"type {lang} {s} {T}", at, "one-type-per-name", f"{lang} binding: {s} is the name of {U_T} and of {T}")
        elif "<" not in T and s != norm_path(T) and wanted.get(s, T) != T:
            res.violation(f"type {lang} {s} {T}", at, "name-of-type", f"{lang} binding: {T} is given the name {s} of {wanted[s]}")


def arg_names(z):
    out = []
    for x in walk(z):
        if x["k"] in ("Ctor", "Call", "UDL") and re.search(r"\barg$|operator\"\"_a|nanobind::arg", (x.get("cls") or x.get("fn") or "")) or (x["k"] in ("Ctor",) and bare(x.get("t", "")).endswith("nanobind::arg")):
            out += [y["v"] for y in walk(x) if y["k"] == "Str"][:1]
            break
    return out


def document_classes(U):
    return {q: r for q, r in U.recs.items() if q.startswith("org::sem::") and "<" not in q}


def check(tier):
    res = Result("C11")
    st = Counter()
    fs = astq.facts(UNITS)
    P, J, K, V = (Unit(fs[u]) for u in UNITS)
    pb, pl = check_registered(res, P, "Python", ("py_libs/pyhaxorg",), st)
    jb, jl = check_registered(res, J, "JavaScript", ("wrappers/js",), st)
    type_names(res, P, "Python", ("py_libs/pyhaxorg",), st)
    type_names(res, J, "JavaScript", ("wrappers/js",), st)
    for e, got in pb.items():
        if e in P.enums:
            miss = [k for k, _ in P.enums[e]["c"] if k not in got]
            if got & {k for k, _ in P.enums[e]["c"]}:
                st["enumerations"] += 1
                for k in miss:
                    res.violation(f"enumerator Python {e} {k}", pl[e], "every-enumerator-bound", f"Python binding of {e} has no name for the enumerator {k}")
    cb = check_c(res, K, V, st)
    check_c_enums(res, K, st)
    for lang, U, b, lines in (("Python", P, pb, pl), ("JavaScript", J, jb, jl), ("C", K, cb, {})):
        for q, r in document_classes(U).items():
            if q not in b:
                continue
            for f in r["fields"]:
                if f["acc"] != 0 or f.get("static") or "std::variant<" in f["ct"] or "nlohmann" in f["ct"] or q == "org::sem::OrgJson":
                    continue
                st["fields"] += 1
                if f["name"] not in b[q]:
                    res.violation(f"field {lang} {q} {f['name']}", lines.get(q, f"{r['file'].split('/repo/')[-1]}:{f['l']}"), "every-field-bound",
                                  f"{lang} binding of {q} does not reach the field {f['name']}")
    astq.settle(res, fs)
    res.level = "other"
    res.coverage = dict(**{k.replace(" ", "_"): v for k, v in st.items()},
                        explanation="every registration of a member, function or enumerator in the Python, JavaScript and C bindings is resolved on the type-checked source; the name it is given "
                        "is compared with the declaration it denotes, its class, constness and parameter order, and the bound fields and enumerators with those declared")
    if st["references"] < 1500 or st["c functions"] < 1500 or st["fields"] < 600:
        res.violation("anchor", "src/wrappers", "anchor-present", f"only {dict(st)} registrations found")
    return res


FIXED = {"execute_cpp", "get_cpp_field", "execute_destroy", "execute_destroy_vtable"}
ANY = {"haxorg_ptr_payload", "haxorg_StdOptional", "haxorg_HstdMap", "haxorg_ImmMap", "haxorg_HstdUnorderedSet", "haxorg_ImmVec", "haxorg_immer_flex_vector", "haxorg_HstdIntSet", "haxorg_ImmBox", "haxorg_immer_box"}


def scrub(t):
    """one spelling per type: default template arguments differ between sugared spellings"""
    t = bare(t)
    t = re.sub(r", std::hash<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    return t.replace("std::basic_string<char>", "std::string").replace(" ", "")


def check_c(res, K, V, st):
    selfs = defaultdict(lambda: defaultdict(list))  # C struct -> C++ class -> places
    bound = defaultdict(set)
    for U, tag in ((K, "C"), (V, "vtable")):
        for d in U.fns.values():
            if not isinstance(d.get("body"), dict) or not d["file"].endswith(("haxorg_c.cpp", "haxorg_c_vtables.cpp")):
                continue
            n = d["name"]
            at = where(d, d)
            vt = d.get("clsq", "") == "org::bind::c::VTable"
            if tag == "C" and not n.startswith("haxorg_"):
                continue
            st["c functions"] += 1
            if vt and n == "get_vtable":
                for x in walk(d["body"]):
                    if x["k"] == "InitList" and x.get("flds"):
                        for f, a in zip(x["flds"], x["a"]):
                            r = reference(a)
                            if r and r["name"] != f:
                                res.violation(f"vtable {d['cls']} {f}", where(d, a), "name-of-member", f"C binding: the entry {f} of the function table of {d['clsTargs'][0]} is {r['name']}")
                            if r and r.get("cls") and r["cls"] != d["cls"]:
                                res.violation(f"vtable {d['cls']} {f} of", where(d, a), "member-of-class", f"C binding: the entry {f} of the function table of {d['clsTargs'][0]} belongs to {r['cls']}")
                continue
            calls = [x for x in walk(d["body"]) if x["k"] == "Call" and (x.get("fn") or "").startswith("org::bind::c::") and name_of(x) in FIXED]
            via = [x for x in walk(d["body"]) if x["k"] == "Call" and isinstance(x.get("ce"), dict) and x["ce"]["k"] == "Member" and (x["ce"].get("cls") or "").endswith("_vtable")]
            if not calls and len(via) == 1:
                m = via[0]["ce"]["name"]
                fields = {f["name"] for f in U.recs.get(via[0]["ce"]["cls"], {}).get("fields", [])}
                if not n.endswith("_" + m) and any(n.endswith("_" + f) for f in fields):
                    res.violation(f"c {n}", at, "name-of-member", f"C binding: {n} calls the entry {m} of the function table")
                pass_order(res, d, via[0], at)
                continue
            if len(calls) != 1:
                continue
            x = calls[0]
            kind = name_of(x)
            if kind == "execute_destroy_vtable":
                continue
            ps = [p for p in d["params"]]
            if kind == "execute_destroy":
                T, S = scrub(x["targs"][0]), bare(ps[1]["t"]) if len(ps) > 1 else ""
                if vt:
                    if n == "destroy" and T != scrub(d["clsTargs"][0]):
                        res.violation(f"c destroy {d['cls']}", at, "destroy-same-class", f"C binding: the function table of {d['clsTargs'][0]} destroys {T}")
                else:
                    selfs[S][T].append((n, at))
                continue
            pass_order(res, d, x, at)
            refs = [r for r in (reference(a) for a in x["a"]) if r]
            if len(refs) != 1:
                continue
            r = refs[0]
            st["c references"] += 1
            m = r["name"]
            owner = r.get("cls") or ""
            if vt:
                local = n
                if owner and scrub(owner) != scrub(d["clsTargs"][0]):
                    res.violation(f"c {d['cls']} {n}", at, "member-of-class", f"C binding: {n} of the function table of {d['clsTargs'][0]} calls {r['qual']}")
                cut = [local]
            else:
                cut = [n[i + 1:] for i in range(len(n)) if n[i] == "_"]
            if owner and len(ps) > 1 and ps[1]["name"] in ("__this", "__self", "self"):
                selfs[bare(ps[1]["t"])][scrub(owner)].append((n, at))
                bound[owner].add(m)
            want = OPERATOR.get(m, m)
            con = is_const(r, x)
            others = U.members(owner) if owner else set()
            if kind == "get_cpp_field":
                ok = any(c == "get_" + m for c in cut)
            else:
                ok = False
                for c in cut:
                    base = c[:-6] if c.endswith("_const") else c
                    if base == want or (base.startswith(want) and base not in others and c not in others):
                        ok = True
            if not ok:
                # the name denotes another member of the class, or none at all
                res.violation(f"c {d.get('cls', '')} {n}", at, "name-of-member", f"C binding: {n} reaches {r['qual']}")
                continue
            if con is not None and owner and kind == "execute_cpp":
                if n.endswith("_const") != con and (n.endswith("_const") or len({is_const(dict(sig=g.get("sig"), dk="fn"), None) for g in U.fns.values() if g.get("cls") == owner and g["name"] == m}) == 2):
                    res.violation(f"c const {n}", at, "overload-of-name", f"C binding: {n} calls the {'const' if con else 'mutable'} overload of {r['qual']}")
            # the type of the result
            ret = bare(d["cret"])
            if not vt and ret.startswith("haxorg_") and ret not in ANY and not ret.endswith("_vtable") and ret not in K.enums:
                T = result_type(x, kind)
                if T:
                    selfs[ret][scrub(T)].append((n, at))
    for S, by in selfs.items():
        if S in ANY or len(by) < 2:
            continue
        main = max(by, key=lambda t: len(by[t]))
        for T, places in by.items():
            if T != main and len(places) < len(by[main]):
                for n, at in places:
                    res.violation(f"c type {n}", at, "one-class-per-handle", f"C binding: {n} treats {S} as {T}, which is a handle of {main} elsewhere")
    return bound


def result_type(x, kind):
    """canonical C++ type of the result, which the handle points at"""
    t = x.get("targs") or []
    if kind == "get_cpp_field":
        t = t[2] if len(t) > 3 else ""
    else:
        m = re.match(r"(.*?)\s*\((?:[^()]*::)?\*\)\s*\(", next((a.get("to") or "" for a in x["a"] if a["k"] == "Cast"), ""))
        t = m.group(1) if m else ""
    # boxes and shared pointers stand for what they hold; nodes and their typed ids share one representation
    t = re.sub(r"^(?:immer::box|hstd::ext::ImmBox|std::shared_ptr)<(.*)>$", r"\1", bare(t)) if t else ""
    t = re.sub(r"SemId<org::sem::\w+>$", "SemId<org::sem::Org>", bare(t)) if t else ""
    return re.sub(r"^org::imm::ImmIdT<org::imm::\w+>$", "org::imm::ImmId", t)


def pass_order(res, d, x, at):
    """every parameter of the C function is passed on once, in order"""
    ids = [p["id"] for p in d["params"]]
    got = []
    for a in x["a"]:
        s = strip(a)
        if isinstance(s, dict) and s["k"] == "Ref" and s.get("dk") == "param":
            got.append(s["id"])
        elif isinstance(s, dict) and s["k"] == "MCall" and not any(y["k"] == "Lambda" for y in walk(s)):
            return
    known = [i for i in got if i in ids]
    if len(known) == len(ids) and sorted(known) == sorted(ids) and known != ids:
        res.violation(f"c order {d['qual']}", at, "argument-order", f"C binding: {d['name']} passes its arguments in another order")
    elif len(set(known)) < len(known):
        res.violation(f"c order {d['qual']}", at, "argument-order", f"C binding: {d['name']} passes an argument twice")


def check_c_enums(res, K, st):
    for q, e in K.enums.items():
        if not q.startswith("haxorg_"):
            continue
        cand = sorted((k for k in K.enums if not k.startswith("haxorg_") and norm_path(k) == q[7:]), key=len)
        if not cand:
            continue
        X = K.enums[cand[0]]
        st["c enumerations"] += 1
        theirs = {k[len(q) + 1:] if k.startswith(q + "_") else k: v for k, v in e["c"]}
        at = f"{e['file'].split('/repo/')[-1]}:{e['l']}"
        for k, v in X["c"]:
            if k not in theirs:
                res.violation(f"c enum {q} {k}", at, "every-enumerator-bound", f"C binding of {cand[0]} has no name for the enumerator {k}")
            elif theirs[k] != v:
                res.violation(f"c enum {q} {k}", at, "enumerator-value", f"C binding: {q}_{k} is {theirs[k]}, {cand[0]}::{k} is {v}")


def norm_path(q):
    parts = q.split("::")
    while parts and parts[0][:1].islower():
        parts = parts[1:]
    return "".join(parts)
