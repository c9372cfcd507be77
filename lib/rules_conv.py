"""C27: the converter fills each part of the document from the part of the syntax tree
that stands for it.

A data flow analysis of SemConvert.cpp over the typed program.  A value is the set of
places it comes from: paths in the syntax tree (the child under a specification name,
an element of it), constants, words asked for.  Every write to a field of a document
class is recorded with its value, the words the text was compared with on the way
there and what is known about the kinds of the nodes."""
import os
import re

import astq
import rules_parse
from astq import walk
from common import REPO, Result

UNIT = "src/haxorg/sem/SemConvert.cpp"
SPEC = "src/haxorg/parse/OrgSpec.cpp"
CONV = "org::sem::OrgConverter"
THROUGH = ("Copy", "Cast", "Paren", "Full", "Temp", "DefArg")
DEEPEST = 4
BASES = ("Org", "Stmt", "Cmd", "Leaf", "Block", "Inline", "Attached", "Subtree_", "LineCommand", "Markup", "Cmd_")
ALIAS = dict(L="LispCode", Log="SubtreeLogHead", Prop="NamedProperty", Property="NamedProperty")
SILENT = ("print", "trace", "field", "report", "print_json", "MakeConvert", "MakeInternal", "SemError", "SemErrorItem", "init", "fmt", "treeRepr", "wrapError", "getLocMsg", "get_text_loc")
ADDS = ("push_back", "emplace_back", "insert", "append", "insert_or_assign", "emplace", "insertOrAssign", "push")
SEES = ("==", "org_streq", "starts_with", "ends_with", "contains")
NODE = re.compile(r"NodeAdapter|OrgAdapter|\bIn\b")
# followed as a whole: what they give comes from what they are given
WHOLE = set("""get_text normalize strip lstrip rstrip strip_space split convertSubtreePath ConvertToTimeZone ParseUserTime parseOrgEnum
 create_time_zone_from_offset filter_subnodes own_view gen_view remove_empty_text addArgument run_lexy_parse getLoc IsErrorInfoToken org_streq replace_all join""".split())
ROOTS = set("""convert convertTable convertHashTag convertSubtreeLog convertSubtreeDrawer convertPropertyList convertSubtree convertTime convertTimeRange convertMacro
 convertSymbol convertParagraph convertStmtList convertInlineFootnote convertLink convertList convertListItem convertCmdCaption convertCmdCreator convertCmdAuthor convertCmdEmail
 convertCmdLanguage convertCmdCustomRaw convertCmdCustomText convertCmdCustomArgs convertCmdTblfm convertWord convertPlaceholder convertNewline convertSpace convertEscaped
 convertRawText convertErrorSkipToken convertErrorSkipGroup convertErrorItem convertRadioTarget convertTextTarget convertPunctuation convertBigIdent convertMarkQuote convertVerbatim
 convertBold convertMonospace convertStrike convertPar convertItalic convertUnderline convertBlockExample convertBlockDynamicFallback convertCriticMarkup convertColonExample
 convertBlockExport convertBlockCenter convertBlockQuote convertBlockComment convertMath convertCmdInclude convertTextSeparator convertAtMention convertAttr convertAttrs
 convertLisp convertCmdAttr convertCmdColumns convertCmdName convertInlineExport convertBlockCode convertCmdCall flatConvertAttached flatConvertAttachedSubnodes
 convertDocumentOptions updateDocument convertDocumentFragments convertDocument convertAllSubnodes SemLeaf Sem""".split())


def last(q):
    return (q or "").rsplit("::", 1)[-1]


def given(n):
    return [a for a in n.get("a") or [] if a is not None and a["k"] != "DefArg"]


def plain(t):
    """the class an expression's type names"""
    t = re.sub(r"\b(const|struct|class)\b|[&*]", "", t or "").strip()
    m = re.match(r"(?:org::sem::|sem::)?SemId<(.*)>$", t)
    if m:
        t = m.group(1)
    m = re.match(r"(?:std::optional|hstd::Opt|Opt)<(.*)>$", t)
    if m:
        t = plain(m.group(1))
    return re.sub(r"^(org::)?(sem::)?", "", t)


def words(guards):
    """what the text was found equal to: the possible sets of words"""
    out = [()]

    def alts(g):
        if g[0] == "lit":
            return {(g[1].strip("*") or g[1] or "nothing").replace(" ", "space")}
        if g[0] == "or":
            got = [alts(x) for part in g[1:] for x in part]
            return set().union(*got) if got and all(got) and all(len(part) == 1 for part in g[1:]) else set()
        return set()
    for g in guards:
        a = alts(g) - {":"} if g[0] != "lit" or g[1] == "*:*" else alts(g)
        if a:
            out = [o + (x,) for o in out for x in sorted(a)]
    return [o for o in out if o]


def when(*groups):
    """texts of all combinations"""
    out = [()]
    for g in groups:
        if g:
            out = [o + x for o in out for x in g]
    return sorted({" when " + " & ".join(sorted(set(o))) if o else "" for o in out})


class Flow:
    def __init__(self, unit):
        self.fns = {}
        for d in unit["decls"]:
            if d["d"] == "fn" and "body" in d and d["file"].endswith(("SemConvert.cpp", "SemConvert.hpp")):
                self.fns.setdefault(d["qual"], []).append(d)
        self.recs = {plain(d["qual"]) for d in unit["decls"] if d["d"] == "rec" and d["qual"].startswith("org::sem::")}
        self.writes = []
        self.asked = []      # (path, name, line, guards, fn)
        self.open = set()    # classes whose objects are handed to code that is not followed
        self.reached = []    # what convert() hands a node to
        self.fn = None
        self.depth = 0
        self.guards = []

    # ------------------------------------------------------------ expressions
    def lookup(self, q, n):
        ds = [d for d in self.fns.get(q, []) if len(d["params"]) >= n]
        return ds[0] if len(ds) == 1 else None

    def ev(self, n, env):
        if n is None:
            return frozenset()
        k = n["k"]
        if k in THROUGH:
            return self.ev(n.get("e"), env)
        if k == "Ref":
            if n.get("dk") == "enum":
                q = n["qual"]
                return frozenset({("name", last(q))}) if q.startswith("OrgSpecName::") else frozenset({("const", q)})
            if n.get("dk") in ("local", "param", "binding", "var") and n.get("id") not in env and "::" not in n.get("qual", "::"):
                return frozenset({("any", "")})
            return env.get(n.get("id"), frozenset())
        if k == "Lit":
            return frozenset({("const", "true" if n.get("v") in (True, "true") else "false")}) if n.get("t") == "bool" else frozenset()
        if k == "Str":
            return frozenset({("str", n["v"])})
        if k == "Lambda":
            self.lams[id(n)] = (n, env)
            return frozenset({("lam", id(n))})
        if k == "Member":
            b = self.ev(n["b"], env)
            if n.get("fld") and any(x[0] == "new" for x in b):
                o = self.owner(n)
                return frozenset(x for w in self.writes if w["fn"] == self.fn and w["cls"] == o and w["field"] == n["name"] for x in w["v"] if x[0] != "struct")
            return b
        if k == "InitList":
            out = set()
            cls = self.struct(n.get("t"))
            if cls in self.recs:
                out.add(("struct", cls))
            for i, a in enumerate(n.get("a") or []):
                v = self.ev(a, env)
                out |= v
                fl = n.get("flds") or []
                if i < len(fl) and a is not None and a["k"] not in ("DefArg", "DefInit", "ImplicitInit"):
                    if not (a["k"] in ("Ctor", "InitList") and not given(a)):
                        self.write(cls, fl[i], v, n.get("l"), "=")
            return frozenset(out)
        if k == "Cond":
            self.ev(n["c"], env)
            t, f = self.facts(n["c"], env)
            a = self.under(t, lambda: self.ev(n["a"], env))
            b = self.under(f, lambda: self.ev(n["b"], env))
            return a | b
        if k == "Bin":
            if n.get("op") in ("=", "+=", "-=", "|="):
                return self.assign(n["a"], n["b"], env, n.get("l"), n["op"])
            return self.ev(n["a"], env) | self.ev(n["b"], env)
        if k == "Un":
            return self.ev(n.get("e"), env)
        if k == "OpCall":
            op, a = n.get("op"), n.get("a") or []
            if op in ("=", "+=", "<<=") and len(a) == 2:
                return self.assign(a[0], a[1], env, n.get("l"), op)
            if op == "()" and a:
                fv = self.ev(a[0], env)
                lam = [x for x in fv if x[0] == "lam"]
                if lam:
                    return self.closure(lam, [x for x in a[1:] if x["k"] != "DefArg"], env)
            if op == "[]" and len(a) == 2 and NODE.search(a[0].get("t", "")):
                return self.element(a[0], a[1], env)
            if op == "[]" and len(a) == 2 and "Vec<" in a[0].get("t", ""):
                return self.nth(a[0], a[1], env)
            out = set()
            for x in a:
                out |= self.ev(x, env)
            return frozenset(x for x in out if x[0] != "str" or op == "+")
        if k in ("Call", "MCall"):
            return self.call(n, env)
        if k in ("Ctor",):
            out = set()
            for x in given(n):
                out |= self.ev(x, env)
            if out and all(x[0] == "src" for x in out) and "SemId<" in n.get("cls", "") and not n.get("a"):
                return frozenset()
            return frozenset(out)
        if k in ("StmtExpr",):
            return frozenset()
        out = set()
        for x in astq.kids(n):
            if isinstance(x, dict) and x.get("k") not in ("Block",):
                out |= self.ev(x, env)
        return frozenset(out)

    def element(self, obj, idx, env):
        v = self.ev(obj, env)
        i = next((x for x in walk(idx) if x["k"] == "Call" and last(x.get("fn")) == "slice"), None)
        if i is not None:
            lits = [str(y["cv"]) + ("B" if 'B' in str(x.get("fn", "")) else "") for x in i["a"] for y in [next((z for z in walk(x) if "cv" in z), None)] if y]
            suf = "[" + "..".join(lits) + "]"
        else:
            c = idx
            while c["k"] in THROUGH:
                c = c["e"]
            suf = "." + str(c["cv"]) if "cv" in c else "[]"
        return frozenset(("src", x[1] + suf) if x[0] == "src" else x for x in v)

    def nth(self, obj, idx, env):
        while idx["k"] in THROUGH:
            idx = idx["e"]
        v = self.ev(obj, env)
        if idx["k"] == "Lit" and "cv" in idx and "SemId" not in obj.get("t", ""):
            return frozenset((x[0], x[1] + "#" + str(idx["cv"])) if x[0] == "src" else x for x in v)
        return v

    def byref(self, params, args, env):
        for p, a in zip(params, args):
            t = p.get("ct") or p.get("t") or ""
            if plain(a.get("t")) in self.recs and plain(t) not in self.recs:
                self.open.add(plain(a["t"]))
            if t.rstrip().endswith("&") and not t.startswith("const ") and " const" not in t:
                tg = self.target(a, env)
                if tg[0] == "field":
                    self.alias[p["id"]] = tg

    def closure(self, lams, args, env):
        vals = [self.ev(a, env) for a in args]
        out = {("word", x[1]) for v in vals for x in v if x[0] == "str"}
        for _, i in lams:
            n, cenv = self.lams[i]
            if self.depth >= DEEPEST or i in self.busy:
                out |= {x for v in vals for x in v}
                continue
            self.busy.add(i)
            self.depth += 1
            for p, v in zip(n.get("params") or [], vals):
                cenv[p["id"]] = v
            self.byref(n.get("params") or [], args, env)
            out |= self.function(n["body"], cenv)
            self.depth -= 1
            self.busy.discard(i)
        return frozenset(out)

    def call(self, n, env):
        nm = last(n.get("fn")) if n.get("fn") else (n.get("ce") or {}).get("name", "")
        args = given(n)
        if nm in SILENT:
            return frozenset()
        if nm in ("one", "many") and (n.get("fn") or "").startswith(CONV) and len(args) == 2:
            node, name = self.ev(args[0], env), self.ev(args[1], env)
            names = [x[1] for x in name if x[0] == "name"]
            out = set()
            for x in node:
                if x[0] == "src":
                    for m in names:
                        out.add(("src", x[1] + "." + m))
                        self.asked.append((x[1], m, nm, n.get("l"), tuple(self.guards), self.fn))
                    if not names:
                        out.add(("any", ""))
            if not any(x[0] == "src" for x in node):
                out.add(("any", ""))
            return frozenset(out)
        if nm in ("Sem", "SemLeaf", "convertAllSubnodes"):
            t = plain((n.get("targs") or [n.get("t")])[0])
            v = frozenset().union(*[self.ev(a, env) for a in args]) if args else frozenset()
            return frozenset(("new", t + " of " + x[1]) for x in v if x[0] == "src") or frozenset({("new", t)})
        if nm == "New" and "SemId<" in (n.get("fn") or ""):
            return frozenset({("new", plain(n.get("t")))})
        if n["k"] == "MCall":
            obj = n.get("obj")
            if NODE.search((obj or {}).get("t", "")) and "SemId" not in obj.get("t", ""):
                if nm in ("kind", "getKind", "size", "isTerminal", "isMono", "isValid", "empty"):
                    return frozenset(("kind", x[1]) for x in self.ev(obj, env) if x[0] == "src")
                if nm in ("at",) and len(args) == 1:
                    return self.element(obj, args[0], env)
            if nm in ("at", "get") and len(args) == 1 and "Vec<" in obj.get("t", ""):
                return self.nth(obj, args[0], env)
            if nm in ("pop_opt", "get", "find", "contains", "at") and len(args) == 1 and self.literal(args[0]) is not None:
                return self.ev(obj, env) | {("word", self.literal(args[0]))}
            if nm in ADDS:
                return self.add(obj, args, env, n.get("l"), n)
            if nm.startswith("set") and len(args) == 1 and nm[3:4].isupper():
                self.write(plain(obj.get("t")), nm[3].lower() + nm[4:], self.ev(args[0], env), n.get("l"), "=")
                return frozenset()
        fn = n.get("fn") or ""
        if nm not in WHOLE and nm not in ROOTS and (fn.startswith(CONV + "::") or "::" not in fn or fn.startswith("(anonymous")) and self.depth < DEEPEST:
            d = self.lookup(fn, len(args))
            if d is not None and d["qual"] not in self.busy:
                env2 = {}
                vals = [self.ev(a, env) for a in args]
                for p, v in zip(d["params"], vals):
                    env2[p["id"]] = v
                self.byref(d["params"], args, env)
                self.busy.add(d["qual"])
                self.depth += 1
                out = self.function(d["body"], env2)
                self.depth -= 1
                self.busy.discard(d["qual"])
                return frozenset(out | {("word", x[1]) for v in vals for x in v if x[0] == "str"})
        if nm not in ROOTS and nm not in WHOLE and not fn.startswith(("std::", "hstd::")):
            for a in args:
                c = plain(a.get("t"))
                if c in self.recs and c not in ("Org", "AttrGroup") and "const" not in a.get("t", ""):
                    self.open.add(c)
        if nm in ROOTS and self.fn == "convert":
            self.reached.append((nm, plain(re.sub(r".*ConvResult<(.*)>$", r"\1", n.get("t", ""))), tuple(self.guards), n.get("l")))
        out = set(self.ev(n["obj"], env)) if n["k"] == "MCall" and n.get("obj") else set()
        if n["k"] == "Call" and n.get("ce"):
            out |= self.ev(n["ce"], env)
        for a in args:
            v = self.ev(a, env)
            out |= {x for x in v if x[0] != "str" and not (x[0] == "new" and nm in ROOTS)}
        return frozenset(out)

    # ----------------------------------------------------------------- writes
    def write(self, cls, field, v, line, op):
        self.writes.append(dict(cls=cls, field=field, v=frozenset(x for x in v if x[0] not in ("lam", "name")), line=line, op=op, guards=tuple(self.guards), fn=self.fn))

    def target(self, n, env):
        """(class, field) or ("local", id) an lvalue denotes"""
        while True:
            k = n["k"]
            if k in ("Cast", "Paren", "Copy"):
                n = n["e"]
            elif k == "Un" and n.get("op") == "*":
                n = n["e"]
            elif k == "OpCall" and n.get("op") in ("[]", "*", "->"):
                if n["op"] == "->" and "SemId<" in (n.get("cls") or ""):
                    return ("node", plain(n.get("t")), n["a"][0])
                n = n["a"][0]
            elif k == "MCall" and last(n.get("fn")) in ("emplace", "emplace_back", "value", "at", "back", "front", "get", "last", "data"):
                n = n["obj"]
            elif k == "Member" and n.get("fld"):
                return ("field", self.owner(n), n["name"], n["b"])
            elif k == "Ref":
                if n.get("id") in self.alias:
                    return self.alias[n["id"]]
                return ("local", n.get("id"), n.get("t"))
            else:
                return ("other", None, None)

    def owner(self, n):
        c = plain(n.get("cls"))
        return plain(n["b"].get("t")) if last(c) in BASES else c

    def struct(self, t):
        """a record as its declaration names it"""
        c = plain(t)
        if c in self.recs:
            return c
        same = [r for r in self.recs if r.endswith("::" + last(c))]
        return same[0] if len(same) == 1 else next((r for r in same if last(r.rsplit("::", 1)[0]) == ALIAS.get(c.split("::")[0])), c)

    def root(self, n):
        while n is not None and n["k"] in ("Member", "Cast", "Paren", "OpCall", "MCall", "Un", "Copy"):
            if n["k"] == "Member":
                n = n["b"]
            elif n["k"] == "OpCall":
                if n.get("op") == "->" and "SemId<" in (n.get("cls") or ""):
                    return None
                n = n["a"][0]
            elif n["k"] == "MCall":
                n = n.get("obj")
            else:
                n = n.get("e")
        return n["id"] if n is not None and n["k"] == "Ref" else None

    def assign(self, lhs, rhs, env, line, op):
        v = self.ev(rhs, env)
        t = self.target(lhs, env)
        if t[0] == "field":
            self.write(t[1], t[2], v, line, op)
            r = self.root(lhs)
            if r in self.alias and self.alias[r][1:3] != t[1:3]:
                self.write(self.alias[r][1], self.alias[r][2], v, line, "part")
            if r is not None:
                env[r] = env.get(r, frozenset()) | v
        elif t[0] == "local":
            env[t[1]] = v if op == "=" and lhs["k"] == "Ref" else env.get(t[1], frozenset()) | v
        return v

    def add(self, obj, args, env, line, n):
        v = frozenset().union(*[self.ev(a, env) for a in args]) if args else frozenset()
        t = self.target(obj, env)
        if t[0] == "field":
            if args:
                self.write(t[1], t[2], v, line, "add")
            r = self.root(obj)
            if r is not None:
                env[r] = env.get(r, frozenset()) | v
        elif t[0] == "node":
            self.write(t[1], "subnodes", v, line, "add")
        elif t[0] == "local":
            if "SemId<" in (t[2] or ""):
                self.write(plain(t[2]), "subnodes", v, line, "add")
            else:
                env[t[1]] = env.get(t[1], frozenset()) | v
        return v

    # ------------------------------------------------------------- conditions
    def facts(self, c, env):
        """what holds when a condition is true, and when it is false"""
        while c["k"] in THROUGH:
            c = c["e"]
        k = c["k"]
        if k == "Un" and c.get("op") == "!":
            t, f = self.facts(c["e"], env)
            return f, t
        if k == "OpCall" and c.get("op") == "!":
            t, f = self.facts(c["a"][0], env)
            return f, t
        if k == "Bin" and c.get("op") in ("&&", "||"):
            ta, fa = self.facts(c["a"], env)
            tb, fb = self.facts(c["b"], env)
            if c["op"] == "&&":
                return ta + tb, ([("or", tuple(fa), tuple(fb))])
            return [("or", tuple(ta), tuple(tb))], fa + fb
        op, a, b = None, None, None
        if k == "Bin" and c.get("op") in ("==", "!="):
            op, a, b = c["op"], c["a"], c["b"]
        elif k == "OpCall" and c.get("op") in ("==", "!=") and len(c["a"]) == 2:
            op, a, b = c["op"], c["a"][0], c["a"][1]
        elif k == "Call" and last(c.get("fn")) == "org_streq":
            op, (a, b) = "==", given(c)[:2]
        elif k == "MCall" and last(c.get("fn")) in ("starts_with", "ends_with", "contains") and len(given(c)) == 1:
            arg = given(c)[0]
            if "IntSet" in (c.get("cls") or "") or "IntSet" in (c.get("fn") or ""):
                subj = [x[1] for x in self.ev(arg, env) if x[0] == "kind"]
                ks = {last(x["qual"]) for x in walk(c["obj"]) if x["k"] == "Ref" and x.get("qual", "").startswith("OrgNodeKind::")}
                if subj and ks:
                    return [("is", subj[0], frozenset(ks))], [("not", subj[0], frozenset(ks))]
                return [("on", frozenset())], [("on", frozenset())]
            op, a, b = "==", c["obj"], arg
            lit = self.literal(b)
            if lit is not None:
                lit = {"starts_with": lit + "*", "ends_with": "*" + lit, "contains": "*" + lit + "*"}[last(c["fn"])]
                return [("lit", lit, self.srcs(a, env))], [("nlit", lit, self.srcs(a, env))]
        if op:
            for x, y in ((a, b), (b, a)):
                v = self.ev(x, env)
                ks = [z[1] for z in v if z[0] == "kind"]
                cs = [last(z[1]) for z in self.ev(y, env) if z[0] == "const"]
                if ks and len(cs) == 1:
                    t, f = [("is", ks[0], frozenset(cs))], [("not", ks[0], frozenset(cs))]
                    return (t, f) if op == "==" else (f, t)
                lit = self.literal(y)
                if lit is not None:
                    t, f = [("lit", lit, self.srcs(x, env))], [("nlit", lit, self.srcs(x, env))]
                    return (t, f) if op == "==" else (f, t)
        s = self.srcs(c, env)
        return [("on", s)], [("on", s)]

    def srcs(self, n, env):
        return frozenset(x[1] for x in self.ev(n, env) if x[0] in ("src", "kind", "str"))

    def literal(self, n):
        while n is not None and (n["k"] in THROUGH or n["k"] in ("Ctor", "InitList") and len(given(n)) == 1 or n["k"] == "Call" and last(n.get("fn")).startswith('operator""')):
            n = n["e"] if n["k"] in THROUGH else n["a"][0] if n["k"] == "Call" else given(n)[0]
        if n is None:
            return None
        if n["k"] == "Str":
            return n["v"]
        if n["k"] == "Lit" and n.get("chr"):
            return chr(int(n["cv"]))
        return None

    def under(self, fs, f):
        keep = self.guards
        self.guards = keep + list(fs)
        try:
            return f()
        finally:
            self.guards = keep

    # -------------------------------------------------------------- statements
    def function(self, body, env):
        keep = self.guards, self.rets, self.base
        self.guards, self.rets, self.base = list(self.guards), set(), len(self.guards)
        self.stmt(body, env)
        out = self.rets
        self.guards, self.rets, self.base = keep
        return out

    def join(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = env.get(k, frozenset()) | v

    def stmt(self, n, env):
        """True when control does not go on after n"""
        if n is None:
            return False
        k = n["k"]
        if k == "Block":
            keep = self.guards
            self.guards = list(keep)
            gone = False
            for s in n.get("s") or []:
                if self.stmt(s, env):
                    gone = True
                    break
            self.guards = keep
            return gone
        if k == "Decl":
            for v in n.get("vars") or []:
                self.declare(v, env)
            return False
        if k == "If":
            for i in ("init",):
                if n.get(i):
                    self.stmt(n[i], env)
            if n.get("cvar"):
                cv = n["cvar"]
                self.stmt(cv, env) if cv.get("k") else self.declare(cv, env)
            t, f = self.facts(n["c"], env)
            self.ev(n["c"], env)
            e1, e2 = dict(env), dict(env)
            keep = self.guards
            self.guards = keep + t
            g1 = self.stmt(n["then"], e1)
            self.guards = keep + f
            g2 = self.stmt(n.get("else"), e2) if n.get("else") else False
            self.guards = keep
            env.clear()
            if g1 and not g2:
                env.update(e2)
                self.guards = keep + f
            elif g2 and not g1:
                env.update(e1)
                self.guards = keep + t
            else:
                env.update(e1)
                self.join(env, e2)
            return g1 and g2
        if k == "RangeFor":
            r = self.ev(n["range"], env)
            t = n["range"].get("t", "")
            if NODE.search(t) and "SemId" not in t and "Str" not in t:
                r = frozenset(("src", x[1] + "[]") if x[0] == "src" else x for x in r)
            return self.loop(n, env, lambda e: e.__setitem__(n["var"]["id"], r) if "id" in n["var"] else None)
        if k in ("While", "Do", "For"):
            if n.get("init"):
                self.stmt(n["init"], env)
            return self.loop(n, env, None)
        if k == "Switch":
            return self.switch(n, env)
        if k == "Return":
            if n.get("e"):
                v = self.ev(n["e"], env)
                w = words(self.guards[self.base:])
                self.rets |= frozenset(y for x in v for y in ([(x[0], x[1] + z) for z in when(w)] if x[0] == "const" and w and self.depth else [x]))
            return True
        if k in ("Throw",):
            return True
        if k in ("Break", "Continue", "Goto"):
            return True
        if k == "Label":
            return self.stmt(n.get("s"), env)
        if k == "Try":
            self.stmt(n["body"], env)
            for h in n.get("h") or []:
                self.stmt(h.get("body") if isinstance(h, dict) else None, dict(env))
            return False
        if k in ("Case", "Default"):
            return self.stmt(n.get("s"), env)
        self.ev(n, env)
        return k == "Throw"

    def declare(self, v, env):
        i = v.get("init")
        val = self.ev(i, env) if i else frozenset()
        t = v.get("ct") or v.get("t") or ""
        if t.rstrip().endswith("&") and i is not None and "const" not in t:
            tg = self.target(i, env)
            if tg[0] == "field":
                self.alias[v["id"]] = tg
        c = plain(re.sub(r"^const ", "", t)) if t.startswith(("org::sem::", "const org::sem::")) and "SemId" not in t else None
        if c in self.recs and not t.rstrip().endswith(("&", "*")) and (i is None or i["k"] in ("Ctor", "InitList") and not given(i)):
            val = val | {("struct", c)}
        env[v["id"]] = val

    def loop(self, n, env, bind):
        for _ in range(2):
            e = dict(env)
            if bind:
                bind(e)
            n0 = len(self.writes), len(self.asked)
            fs = []
            if n.get("c"):
                fs = self.facts(n["c"], e)[0]
            self.under(fs, lambda: self.stmt(n["body"], e))
            if n.get("inc"):
                self.ev(n["inc"], e)
            self.join(env, e)
            if _ == 0:
                del self.writes[n0[0]:], self.asked[n0[1]:]
        return False

    def switch(self, n, env):
        v = self.ev(n["c"], env)
        subj = [x[1] for x in v if x[0] == "kind"]
        srcs = frozenset(x[1] for x in v if x[0] in ("src", "str"))
        items = []

        def flat(s):
            if s is None:
                return
            if s["k"] in ("Case", "Default"):
                items.append(("label", s))
                flat(s.get("s"))
            else:
                items.append(("stmt", s))
        for s in (n["body"].get("s") if n["body"]["k"] == "Block" else [n["body"]]) or []:
            flat(s)
        labels, out, e, live, fresh = [], [], dict(env), False, False
        keep = self.guards
        for what, s in items:
            if what == "label":
                if not live:
                    labels, e = [], dict(env)
                labels.append(s)
                live = True
                continue
            if not live:
                continue
            ks, ls, dflt = set(), [], False
            for l in labels:
                if l["k"] == "Default":
                    dflt = True
                    continue
                for x in walk(l.get("v")) if isinstance(l.get("v"), dict) else []:
                    if x["k"] == "Ref" and x.get("dk") == "enum":
                        ks.add(last(x["qual"]))
                    lit = self.literal(x)
                    if lit is not None:
                        ls.append(lit)
            g = [("on", srcs)] if dflt else [("is", subj[0], frozenset(ks))] if subj and ks else [("lit", ls[0], srcs)] if len(set(ls)) == 1 else [("on", srcs)]
            self.guards = keep + g
            if self.stmt(s, e):
                live = False
                out.append(e)
        self.guards = keep
        self.join(env, *out, *([e] if live else []))
        return False

    # ------------------------------------------------------------------- roots
    def run(self):
        called = set()
        for q, ds in self.fns.items():
            for d in ds:
                for n in walk(d["body"]):
                    if n["k"] in ("Call", "MCall") and n.get("fn"):
                        called.add(n["fn"])
        for q, ds in self.fns.items():
            nm = last(q)
            for d in ds:
                if not (q.startswith(CONV + "::") or nm in ROOTS):
                    continue
                if nm in ("Sem", "SemLeaf", "one", "many", "SemError", "SemErrorItem", "convertAllSubnodes"):
                    continue
                if nm not in ROOTS and q in called:
                    continue
                self.fn = nm
                self.guards, self.lams, self.busy, self.alias, self.depth, self.rets, self.base = [], {}, set(), {}, 0, set(), 0
                env = {}
                nodes = [p for p in d["params"] if NODE.search(p.get("ct", "") + p.get("t", "")) and "SemId" not in p["t"]]
                if not nodes and nm != "convertDocumentFragments":
                    continue
                for p in d["params"]:
                    if p in nodes:
                        env[p["id"]] = frozenset({("src", "a")})
                    elif "Fragment" in p.get("t", ""):
                        env[p["id"]] = frozenset({("src", "a")})
                self.stmt(d["body"], env)
                self.returns = getattr(self, "returns", {})
                self.returns[nm] = frozenset(self.rets)


VARIANT = {"CmdInclude.data", "SubtreeLog.head", "Subtree.properties", "DocumentOptions.properties", "LinkTarget.data", "AttrValue.data", "LispCode.data", "Time.time"}
LITS = re.compile(r"^(DocumentExportConfig|DocumentOptions|SubtreeLog|SubtreeLogHead|NamedProperty|CriticMarkup\.kind|ListItem\.checkbox|Time::Repeat\.(mode|period)|CmdInclude\.(data|subnodes)|LinkTarget|LispCode::Boolean"
                  r"|Subtree\.(closed|deadline|scheduled|treeId|isArchived|isComment)|SubtreeCompletion)")
SKIP = re.compile(r"Vec<|HSlice|^ErrorGroup|^DocumentOptions\.subnodes|\.log$|^Subtree\.properties|^AttrGroup\.positional|^Stmt\.|^Link\.(attached|target)|^(Document|StmtList|Paragraph)\.subnodes")
COMPOSED = {"Subtree.completion", "Time::Static.repeat", "Time::Static.warn", "DocumentExportConfig.tocExport", "HashTag.text"}
ROOTED = re.compile(r"^(DocumentOptions|Document|NamedProperty)\b")


def items(w):
    f = w["cls"] + "." + w["field"]
    lits = words(w["guards"]) if LITS.search(f) else []
    at = ""
    if ROOTED.search(f):
        ks = [g[2] for g in w["guards"] if g[0] == "is" and g[1] == "a"]
        at = " at " + "|".join(sorted(ks[-1])) if ks else ""
    out = set()
    for k, x in w["v"]:
        if k == "struct" and (f not in VARIANT or "::" not in x) or k == "str":
            continue
        if k == "const" and (x.startswith("OrgSemKind::") or f in VARIANT or f in COMPOSED):
            continue
        if f in VARIANT and k != "struct" and k != "any":
            continue
        more = []
        if k == "const":
            x, _, m = x.partition(" when ")
            x = "::".join(x.split("::")[-2:])
            more = [tuple(m.split(" & "))] if m and LITS.search(f) else []
        x = re.sub(r"(\[\])+(?=#|$)", "", x)
        x = {"src": x, "const": x, "new": "new " + x, "kind": "kind of " + x, "word": "'" + x + "'", "struct": "struct " + x, "any": "any"}[k]
        out |= {x + at + l for l in when(lits, more)}
    return f, out


def table(flow):
    got = {}
    for w in flow.writes:
        f, its = items(w)
        if SKIP.search(f) or w["cls"] not in flow.recs:
            continue
        got.setdefault(f, {})
        for i in its:
            got[f].setdefault(i, w["line"])
    return got


ORACLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "conv_oracle.txt")
# a part that may be absent -> the kind of node it is when present ("*": any other than Empty)
OPTIONAL = {
    "Table.isBlock": ("a.Args", "InlineStmtList"), "Table.attrs": ("a.Args", "InlineStmtList"),
    "Row.isBlock": ("a.Rows[].Args", "InlineStmtList"), "Row.attrs": ("a.Rows[].Args", "InlineStmtList"),
    "Cell.isBlock": ("a.Rows[].Body[].Args", "InlineStmtList"), "Cell.attrs": ("a.Rows[].Body[].Args", "InlineStmtList"),
    "Subtree.priority": ("a.Importance", "*"), "Subtree.completion": ("a.Completion", "*"), "Subtree.todo": ("a.Todo", "*"),
    "ListItem.header": ("a.Header", "*"), "ListItem.bullet": ("a.Bullet", "*"), "ListItem.checkbox": ("a.Checkbox", "*"),
    "Link.description": ("a.Desc", "Paragraph"), "BlockCode.lang": ("a.Lang", "*"), "BlockCode.attrs": ("a.HeaderArgs", "*"),
    "AttrValue.varname": ("a.Subname", "*"),
}
# what is written first
ORDER = [("CriticMarkup.subnodes", "a.Assoc", "a.Body")]
# kind of node -> class of the document it becomes
KINDS = dict(x.split(":") for x in """Newline:Newline StmtList:StmtList Subtree:Subtree TimeRange:TimeRange Space:Space Word:Word Bold:Bold Italic:Italic Strike:Strike
 Punctuation:Punctuation Link:Link Par:Par BigIdent:BigIdent Verbatim:Verbatim RawText:RawText List:List ListItem:ListItem Placeholder:Placeholder Escaped:Escaped
 TextSeparator:TextSeparator AtMention:AtMention Underline:Underline Target:TextTarget RadioTarget:RadioTarget InlineStmtList:StmtList SrcInlineCode:BlockCode BlockCode:BlockCode
 InlineFootnote:InlineFootnote BlockExport:BlockExport Macro:Macro Monospace:Monospace BlockCenter:BlockCenter BlockExample:BlockExample HashTag:HashTag InlineMath:Latex RawLink:Link
 InlineExport:InlineExport StaticActiveTime:Time StaticInactiveTime:Time DynamicActiveTime:Time DynamicInactiveTime:Time Quote:MarkQuote BlockComment:BlockComment BlockQuote:BlockQuote
 Colon:Punctuation CmdInclude:CmdInclude Symbol:Symbol Angle:Placeholder Table:Table Footnote:Link CmdTblfm:CmdTblfm CmdAttr:CmdAttr CmdColumns:CmdColumns ColonExample:ColonExample
 CmdCaption:CmdCaption CmdCreator:CmdCreator CmdAuthor:CmdAuthor CmdEmail:CmdEmail CmdLanguage:CmdLanguage CmdName:CmdName CmdCallCode:CmdCall Paragraph:Paragraph
 CmdCustomRawCommand:CmdCustomRaw CmdCustomTextCommand:CmdCustomText CmdCustomArgsCommand:CmdCustomArgs CriticMarkStructure:CriticMarkup
 BlockDynamicFallback:BlockDynamicFallback ErrorSkipGroup:ErrorSkipGroup ErrorSkipToken:ErrorSkipToken""".split())
BELOW = {"a.Rows[]": "TableRow", "a.Rows[].Body[]": "TableCell", "a.Result": "CmdResults"}


def oracle():
    out = {}
    for line in open(ORACLE):
        line = line.rstrip("\n")
        if line and not line.startswith("//"):
            f, _, v = line.partition(" <-")
            out[f] = {x.strip() for x in v.split("; ") if x.strip()}
    return out


ITEM = re.compile(r"^(.*?)((?:#\d+)*)( at [\w|]+)?( when .*)?$")


def category(x):
    return "const" if re.match(r"(\w+::\w+|true|false)( |$)", x) else x.split(" ")[0] if x.startswith(("new ", "struct ", "kind ")) else "word" if x.startswith("'") else "any" if x == "any" or x.startswith("any ") else "src"


def compare(want, got):
    """(missing, unexpected) items"""
    cats = {category(x) for x in want}
    if "any" in {category(x) for x in got}:
        return set(), set()
    loose = set()
    if cats == {"const"} and any(category(x) == "src" for x in got):
        return set(), set()   # computed instead of chosen
    missing, extra = set(want - got), set()
    for x in got - want:
        base, idx, at, wh = ITEM.match(x).groups()
        same = [w for w in want if ITEM.match(w).group(1) == base]
        if same and not wh and any(ITEM.match(w).group(4) for w in same):
            loose |= set(same)            # chosen by something other than a comparison of texts
            continue
        if same and any(ITEM.match(w).group(2) != idx and not (idx and ITEM.match(w).group(2)) and ITEM.match(w).groups()[2:] == (at, wh) for w in same):
            loose |= set(same)            # an element against the whole
            continue
        if category(x) == "struct" and not same:
            continue                      # part of the value
        if category(x) not in cats and category(x) in ("kind", "word", "struct"):
            continue
        extra.add(x)
    missing -= loose
    if not missing:
        # what is handed along on the way
        extra = {x for x in extra if not any(ITEM.match(w).group(1).startswith(ITEM.match(x).group(1)) and category(x) == "src" for w in want)}
        extra = {x for x in extra if not (category(x) == "const" and "const" not in cats)}
    return missing, extra


def excluded(g, path, kind):
    """a fact that does not hold for a part of this kind"""
    if g[0] == "or":
        return all(any(excluded(x, path, kind) for x in part) for part in g[1:])
    if g[0] not in ("is", "not") or g[1] != path:
        return False
    if kind == "*":
        return g[0] == "is" and g[2] == {"Empty"}
    return (kind in g[2]) == (g[0] == "not")


def about(g, path):
    if g[0] == "or":
        return any(about(x, path) for part in g[1:] for x in part)
    if g[0] in ("is", "not"):
        return g[1] == path or g[1].startswith(path)
    return any(s.startswith(path) for s in g[-1])


def check(tier):
    res = Result("C27")
    res.level = "other"
    units = astq.facts([UNIT, SPEC])
    u = units[UNIT]
    flow = Flow(u)
    flow.run()
    want, got = oracle(), table(flow)
    fields = {plain(d["qual"]): {f["name"] for f in d["fields"]} for d in u["decls"] if d["d"] == "rec"}
    bases = {plain(d["qual"]): [plain(b.get("ct")) for b in d.get("bases", [])] for d in u["decls"] if d["d"] == "rec"}

    def has(c, f):
        return f in fields.get(c, ()) or any(has(b, f) for b in bases.get(c, []))

    taken = set()   # fields whose address is taken
    for ds in flow.fns.values():
        for d in ds:
            for n in walk(d["body"]):
                if n["k"] == "Un" and n.get("op") == "&" and isinstance(n.get("e"), dict):
                    e = n["e"]
                    if e["k"] in ("Ref", "Member") and (e.get("dk") == "field" or e.get("fld") or "::" in e.get("qual", "")):
                        taken.add(e["name"])
    cnt = dict(fields=0, undecided=0, origins=0)
    lines = {}
    for w in flow.writes:
        lines.setdefault(w["cls"] + "." + w["field"], w["line"])
    for f, w in sorted(want.items()):
        c, _, name = f.rpartition(".")
        if not has(c, name) or name in taken:
            cnt["undecided"] += 1
            res.notes.append(f"not judged: {f}")
            continue
        g = got.get(f, {})
        missing, extra = compare(w, set(g))
        if c in flow.open:
            missing = set()
        if not missing and not extra and set(g) != w:
            cnt["undecided"] += 1
            res.notes.append(f"judged in part: {f}")
        else:
            cnt["fields"] += 1
        cnt["origins"] += len(w)
        if missing or extra:
            line = next((g[x] for x in sorted(extra)), lines.get(f, 0))
            what = []
            if extra:
                what.append("it is filled from " + "; ".join(sorted(extra)))
            if missing:
                what.append("it is not filled from " + "; ".join(sorted(missing)))
            res.violation(f"field {f}", f"{UNIT}:{line}", "field-origin", f"{f}: " + ", ".join(what))
    # parts that may be absent
    guarded = 0
    for f, (path, kind) in OPTIONAL.items():
        for w in flow.writes:
            if w["cls"] + "." + w["field"] != f or not w["v"] or f == "BlockCode.attrs" and not any(x[1].startswith(path) for x in w["v"]):
                continue
            guarded += 1
            if any(excluded(g, path, kind) for g in w["guards"]):
                res.violation(f"guard {f}", f"{UNIT}:{w['line']}", "part-present", f"{f} is filled only when {path} is not a {kind if kind != '*' else 'node other than Empty'}")
            elif not any(about(g, path) and not (g[0] == "not" and g[1] == path and "Empty" not in g[2] and kind == "*") for g in w["guards"]):
                if not any(x[0] == "any" for x in w["v"]):
                    res.violation(f"guard {f}", f"{UNIT}:{w['line']}", "part-present", f"{f} is filled whether or not {path} is there")
    for f, first, second in ORDER:
        at = {p: [i for i, w in enumerate(flow.writes) if w["cls"] + "." + w["field"] == f and any(x[1].startswith(p) for x in w["v"])] for p in (first, second)}
        if at[first] and at[second] and max(at[first]) > min(at[second]):
            res.violation(f"order {f}", f"{UNIT}:{flow.writes[max(at[first])]['line']}", "order-of-parts", f"{f}: {second} is added before {first}")
    # which class a kind of node becomes
    became, dispatch = {}, 0
    for nm, cls, gs, line in flow.reached:
        ks = [g[2] for g in gs if g[0] == "is" and g[1] == "a"]
        if ks:
            for k in ks[-1]:
                became.setdefault(k, {})[cls] = line
    if len(became) > len(KINDS) - 6:
        for k, cls in sorted(KINDS.items()):
            if k not in became:
                if not any(x["k"] == "Ref" and x.get("qual") == "OrgNodeKind::" + k for d in flow.fns.get(CONV + "::convert", []) for x in walk(d["body"])):
                    res.violation(f"kind {k}", UNIT, "kind-dispatch", f"convert does not handle a node of kind {k}")
                continue
            dispatch += 1
            if cls not in became[k] and not {"Org"} & set(became[k]):
                res.violation(f"kind {k}", f"{UNIT}:{min(became[k].values())}", "kind-dispatch", f"a node of kind {k} becomes {', '.join(sorted(became[k]))}, not {cls}")
    # parts are asked for by names the specification of the node has
    spec = {k: {x[2] for x in v[1]} for k, v in rules_parse.specification(units[SPEC]).items()}
    of = {"convertPropertyList": {"DrawerProperty"}, "convertAttr": {"AttrValue"}, "convertAttrs": {"Attrs"}, "convertLisp": {"AttrLisp"}, "updateDocument": set(spec)}
    for nm, cls, gs, line in flow.reached:
        ks = [g[2] for g in gs if g[0] == "is" and g[1] == "a"]
        if ks:
            of.setdefault(nm, set()).update(ks[-1])
    names = 0
    told = set()
    for path, name, _, line, gs, fn in flow.asked:
        if (line, name) in told:
            continue
        told.add((line, name))
        ks = {BELOW[path]} if path in BELOW else of.get(fn, set()) if path == "a" else set()
        if fn == "updateDocument" and not any(g[0] == "is" and g[1] == "a" for g in gs):
            continue
        for k in sorted(ks):
            if any(excluded(g, path, k) for g in gs):
                continue
            if k not in spec:
                if spec and path == "a":
                    res.violation(f"name {k}.{name}", f"{UNIT}:{line}", "name-specified", f"{fn} asks a node of kind {k} for {name}, and that kind has no specification")
                continue
            names += 1
            if name not in spec[k]:
                res.violation(f"name {k}.{name}", f"{UNIT}:{line}", "name-specified", f"{fn} asks a node of kind {k} for {name}, which its specification does not name")
    res.coverage = dict(analysed=dict(cnt, names=names, writes=len(flow.writes), guarded=guarded, kinds=dispatch, functions=len(flow.fns)), explanation="every write to a field of a document class in the converter, with the places its value comes from, against the table of places each field stands for; fields judged in part are named in the notes")
    lost = sorted(r for r in ROOTS if CONV + "::" + r not in flow.fns)
    if len(flow.writes) < 150 or lost:
        res.notes.append("not in a form this analysis follows: " + (", ".join(lost) or "few writes") + " not in " + UNIT)
        res.notes += ["ignored because of that: " + v["what"] for v in res.violations if v["rule"] != "kind-dispatch"]
        res.violations = [v for v in res.violations if v["rule"] == "kind-dispatch"]
    res.extra["summary"] = f"{cnt['fields']} fields with {cnt['origins']} origins decided, {cnt['undecided']} undecided, {guarded} optional parts, {dispatch} kinds of node, {names} names"
    return astq.settle(res, units)


if __name__ == "__main__":
    u = astq.facts([UNIT])[UNIT]
    f = Flow(u)
    f.run()
    import sys
    if "t" in sys.argv:
        for k, v in table(f).items():
            print(k, "<-", "; ".join(sorted(v)))
        for r in f.reached:
            print(r[1], r[0], [sorted(g[2]) for g in r[2] if g[0] == "is" and g[1] == "a"], r[3])
        print(len(f.asked))
    else:
        for w in sorted(f.writes, key=lambda w: w["line"]):
            print(w["line"], w["fn"], w["cls"] + "." + w["field"], w["op"], sorted(w["v"]), [g for g in w["guards"] if g[0] not in ("nlit",)])
